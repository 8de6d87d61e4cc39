// The distributed algorithms (two-site VMPS, TDVP, DMRG) on the real headers: the ranks
// run as fibers and every order in which the master can receive the workers' messages is
// enumerated within stated bounds; each run must end, lose no message, and leave the state
// and the numbers that the serial algorithm leaves.  Modes: vmps, noise, tdvp, dmrg, and with
// the suffix san smaller ones; compile with -DALGO_<mode in capitals>.
#include "ref.h"
#include "scratch.h"
#include "mpi_world.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
// the loader and dumper threads of this algorithm become schedulable
namespace std { using mpiw_thread = ::mpiw::Thread; }
#define thread mpiw_thread
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#undef thread
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using tn::cd; using tn::Mat; using tn::Vec;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
namespace fs = std::filesystem;

template<typename E, typename Q>
struct Sys {
  std::string name; SiteVec<E, Q> sv; MPO<QLTensor<E, Q>> mpo; MatReprMPO<QLTensor<E, Q>> mat; Mat h;
  std::vector<std::vector<size_t>> starts; QLTensor<E, Q> op;   // a diagonal observable
};
struct Result { double e = 0; Vec v; std::vector<cd> corr; };
struct Plan { std::string name; size_t sweeps, D; double trunc; size_t lanczos; std::vector<double> noises = {}; bool self = false; /* reference: the first schedule on two ranks, not the serial run */
  int prior = 0; /* what an earlier run left: 0 nothing, 1 all its files (continue), 2 + k all but the k-th file of the directory for temporary files */
  size_t site = 1; int kick = 0; /* TDVP: the kicked site and the operators (see TParams) */ double tau = 0.1, e0 = -0.4; size_t dmin = 1; };

template<typename E, typename Q>
void Put(const Sys<E, Q> &g) {
  for (auto p : {"mps", "tmp", "ini", "mtmp"}) fs::remove_all(p);
  FiniteMPS<E, Q> m(g.sv); qlten::shim::Rng() = 7919 + 5; ExtendDirectRandomInitMps(m, g.starts, 4);
  m.Centralize(0); m[0] *= E(1.0 / m[0].Get2Norm()); m.Dump("mps", true);
}
template<typename E, typename Q>
Vec Get(const Sys<E, Q> &g) { FiniteMPS<E, Q> m(g.sv); for (size_t i = 0; i < m.size(); ++i) m.LoadTen(i, GenMPSTenName("mps", i)); return tn::DenseMps(std::as_const(m)); }
inline double UpToPhase(const Vec &a, const Vec &b) { if (a.size() != b.size()) return 1e300; cd o = tn::Dot(a, b); double n = std::abs(o); if (n < 1e-12) return 1e300; return tn::Norm(tn::Add(b, tn::Scale(a, -o / n))); }

template<typename E, typename Q>
FiniteVMPSSweepParams Params(const Plan &p) { if (!p.noises.empty()) return FiniteVMPSSweepParams(p.sweeps, p.dmin, p.D, p.trunc, LanczosParams(1e-14, p.lanczos), p.noises, kVMPSMaxNoise, kVMPSNoiseIncreaseRate, kVMPSNoiseDecreaseRate, kVMPSNoiseAlpha, std::string("mps"), std::string("tmp")); return FiniteVMPSSweepParams(p.sweeps, p.dmin, p.D, p.trunc, LanczosParams(1e-14, p.lanczos), "mps", "tmp"); }
template<typename Q>
MPITDVPSweepParams<Q> TParams(const Sys<QLTEN_Complex, Q> &g, const Plan &p) {
  using T = QLTensor<QLTEN_Complex, Q>; T none, sz = g.op, a(g.op.GetIndexes()), b(g.op.GetIndexes()), d(g.op.GetIndexes());
  for (size_t i = 0; i < g.op.GetShape()[0]; ++i) { a({i, i}) = i % 2 ? -1 : 1; b({i, i}) = cd(1 + 0.4 * i, 0.2); d({i, i}) = cd(0.3 + 0.5 * i, -0.1 * i); }
  // kick: bits 0, 1 the two insertions, bit 2 another operator at the end of the correlation
  T in0 = p.kick & 1 ? a : none, in1 = p.kick & 2 ? b : none, op1 = p.kick & 4 ? d : sz;
  return MPITDVPSweepParams<Q>(p.tau, p.sweeps, p.site, sz, in0, op1, in1, p.e0, p.dmin, p.D, p.trunc, LanczosParams(1e-13, p.lanczos), "mps", "ini", "tmp", "mtmp");
}
enum Algo { VMPS, TDVP, DMRG };
// The directories as a run of the plan finds them; false when the file to be lost does not exist.
template<Algo a, typename E, typename Q>
bool Prepare(const Sys<E, Q> &g, const Plan &p, bool serial) {
  Put(g); if (!p.prior) return true;
  std::string keep = "keep." + g.name + "." + p.name + (serial ? ".s" : ".m"); auto cp = fs::copy_options::recursive;
  if (!fs::exists(keep)) {
    Plan q = p; q.sweeps = 1; q.prior = 0;
    if constexpr (a == TDVP) { FiniteMPS<E, Q> m(g.sv); for (size_t i = 0; i < m.size(); ++i) m.LoadTen(i, GenMPSTenName("mps", i)); m.Centralize(0); for (size_t i = 1; i < m.size(); ++i) m[i] *= E(0.9); m.Dump("mps", true); }   // another state
    if (serial) { FiniteMPS<E, Q> x(g.sv); if constexpr (a == VMPS) TwoSiteFiniteVMPS(x, g.mpo, Params<E, Q>(q)); else if constexpr (a == DMRG) FiniteDMRG(x, g.mat, Params<E, Q>(q)); else TwoSiteFiniteTDVP(x, g.mpo, static_cast<const TDVPEvolveParams<Q> &>(TParams(g, q)), "corr"); }
    else { mpiw::Options o; o.ranks = 2; mpiw::World w(o); std::string err = w.Run([&](int) { FiniteMPS<E, Q> x(g.sv); if constexpr (a == DMRG) FiniteDMRG(x, g.mat, Params<E, Q>(q), MPI_COMM_WORLD); else if constexpr (a == VMPS) TwoSiteFiniteVMPS(x, g.mpo, Params<E, Q>(q), MPI_COMM_WORLD); else TwoSiteFiniteTDVP(x, g.mpo, TParams(g, q), "corr", MPI_COMM_WORLD); });
      if (!err.empty()) throw std::runtime_error("earlier run: " + err); }
    fs::create_directory(keep); for (auto d : {"mps", "tmp", "mtmp"}) if (fs::exists(d)) fs::copy(d, keep + "/" + d, cp);
  }
  Put(g); if constexpr (a != TDVP) fs::remove_all("mps");          // an evolution starts from its own state, whatever lies in the temporary directories
  for (auto d : {"mps", "tmp", "mtmp"}) if (fs::exists(keep + "/" + d) && !(a == TDVP && std::string(d) == "mps")) fs::copy(keep + "/" + d, d, cp);
  if (p.prior < 2) return true;
  std::vector<fs::path> f; for (auto &x : fs::directory_iterator("tmp")) f.push_back(x.path()); std::sort(f.begin(), f.end()); if (size_t(p.prior - 2) >= f.size()) return false; fs::remove(f[p.prior - 2]); return true;
}
template<Algo a, typename E, typename Q>
Result Serial(const Sys<E, Q> &g, const Plan &p) {
  { Plan q = p; q.prior = std::min(p.prior, 1); Prepare<a>(g, q, !p.self); } Result r; FiniteMPS<E, Q> m(g.sv);
  if (p.self) {
    mpiw::Options o; o.ranks = 2; mpiw::World w(o); std::string err = w.Run([&](int k) { FiniteMPS<E, Q> x(g.sv); double e = 0; if constexpr (a == DMRG) e = FiniteDMRG(x, g.mat, Params<E, Q>(p), MPI_COMM_WORLD); else if constexpr (a == VMPS) e = TwoSiteFiniteVMPS(x, g.mpo, Params<E, Q>(p), MPI_COMM_WORLD); if (k == 0) r.e = e; });
    if (!err.empty()) throw std::runtime_error("reference run: " + err);
    r.v = Get(g); return r;
  }
  if constexpr (a == VMPS) r.e = TwoSiteFiniteVMPS(m, g.mpo, Params<E, Q>(p));
  else if constexpr (a == DMRG) r.e = FiniteDMRG(m, g.mat, Params<E, Q>(p));
  else { auto c = TwoSiteFiniteTDVP(m, g.mpo, static_cast<const TDVPEvolveParams<Q> &>(TParams(g, p)), "corr"); for (auto &x : c) r.corr.push_back(x.avg); }
  r.v = Get(g); return r;
}
template<Algo a, typename E, typename Q>
void Explore(const Sys<E, Q> &g, const Plan &p, int ranks, size_t dev, size_t window, const std::vector<int> &policies, const std::string &only) {
  auto &c = mc::ctx(); std::string base = g.name + "/" + p.name + "/" + std::to_string(ranks);
  if (!only.empty() && only.compare(0, base.size() + 1, base + "/")) return;
  Result want; bool have = false;
  auto one = [&](bool sync, int pol, const std::vector<int> &script, std::vector<int> &choices, bool count) {
    std::string id = base + "/" + (sync ? "sync" : "buf") + "/" + std::to_string(pol) + "/" + mpiw::ScriptStr(script);
    std::vector<int> arity;
    tn::Case(id, [&] {
      if (!have) { want = Serial<a>(g, p); have = true; }
      if (!Prepare<a>(g, p, false)) { choices.clear(); return; }
      Result got; std::vector<double> es(ranks, 0.0); long live0 = long(qlten::shim::Live::Count());
      mpiw::Options o; o.ranks = ranks; o.sync = sync; o.policy = pol; o.script = script; mpiw::World w(o);
      std::string err = w.Run([&](int r) {
        MPI_Comm comm = MPI_COMM_WORLD; FiniteMPS<E, Q> m(g.sv);
        if constexpr (a == VMPS) es[r] = TwoSiteFiniteVMPS(m, g.mpo, Params<E, Q>(p), comm);
        else if constexpr (a == DMRG) es[r] = FiniteDMRG(m, g.mat, Params<E, Q>(p), comm);
        else { auto d = TwoSiteFiniteTDVP(m, g.mpo, TParams(g, p), "corr", comm); if (r == 0) for (auto &x : d) got.corr.push_back(x.avg); }
        if (r == 0 && !m.empty()) mc::ctx().violate("mps-not-released", id, "");
      });
      choices = w.choices; arity = w.arity;
      if (count) { c.transitions += w.messages + w.collectives; c.states++; c.note_distinct(mc::hash_str(id)); }
      if (!err.empty()) { c.violate(err.compare(0, 8, "deadlock") == 0 ? "deadlock" : err.compare(0, 7, "message") == 0 ? "message-lost" : "protocol", id, err); return; }
      if (long(qlten::shim::Live::Count()) != live0 + long(0)) c.violate("tensors-leaked", id, std::to_string(long(qlten::shim::Live::Count()) - live0));
      got.v = Get(g);
      if (a != TDVP) {
        if (!(std::abs(es[0] - want.e) < 1e-9)) c.violate("energy", id, tn::Num(es[0]) + ", serial " + tn::Num(want.e));
        double d = UpToPhase(want.v, got.v); if (!(d < 1e-6)) c.violate("state", id, "differs from the serial state by " + tn::Num(d));
        for (int r = 1; r < ranks; ++r) if (es[r] != 0.0) c.violate("worker-result", id, "rank " + std::to_string(r));
      } else {
        double nw = tn::Norm(want.v), ng = tn::Norm(got.v); double d = tn::Norm(tn::Add(tn::Scale(want.v, 1 / nw), tn::Scale(got.v, -1 / ng)));
        if (!(d < 1e-8)) c.violate("state", id, "differs from the serial state by " + tn::Num(d));
        if (got.corr.size() != want.corr.size()) c.violate("correlation", id, std::to_string(got.corr.size()) + " entries");
        for (size_t i = 0; i < got.corr.size() && i < want.corr.size(); ++i) if (!(std::abs(got.corr[i] - want.corr[i]) < (p.trunc > 0 || p.D < 64 ? 1e-2 : 1e-8))) { c.violate("correlation", id, "entry " + std::to_string(i) + ": " + tn::Num(got.corr[i]) + ", serial " + tn::Num(want.corr[i])); break; }
      }
      c.traces_validated++; c.outcome(std::to_string(w.choices.size()) + " choices, " + std::to_string(ranks) + " ranks");
      if (c.states % 211 == 3) c.sample(id + ": " + std::to_string(w.messages) + " messages, " + std::to_string(w.collectives) + " collective calls");
    });
    return arity;
  };
  if (!only.empty()) {
    std::stringstream ss(only.substr(base.size() + 1)); std::string m, pl, sc; std::getline(ss, m, '/'); std::getline(ss, pl, '/'); std::getline(ss, sc, '/');
    std::vector<int> ch; one(m == "sync", std::stoi(pl), mpiw::StrScript(sc), ch, true); return;
  }
  for (int sync = 0; sync < 2; ++sync) for (int pol : policies) {
    uint64_t tag = mc::hash_str(base) + sync * 5 + pol; bool root = (tag % c.nshards) == c.shard;
    mpiw::Explore([&](const std::vector<int> &s, std::vector<int> &ch) { return one(sync, pol, s, ch, !s.empty() || root); }, dev, window,
                  [&](const std::vector<int> &t) { return (mc::hash_str(mpiw::ScriptStr(t)) + tag) % c.nshards == c.shard; });
  }
}

// every truncation against the exactly done sequence of local updates
template<Algo a, typename E, typename Q>
void Reference(const Sys<E, Q> &g, const std::vector<int> &ranks, bool noise, bool small, const std::string &only) {
  auto &c = mc::ctx(); std::vector<size_t> dims; for (auto &s : g.sv.sites) dims.push_back(s.dim()); size_t N = dims.size();
  for (size_t D : {1, 2, 3, 4, 5, 6, 64}) for (size_t dmin : {1, 2, 3}) for (double tr : {1e-12, 1e-6, 1e-4, 1e-3, 1e-2, 5e-2, 0.2}) for (size_t sw : {1, 2}) for (int nr : ranks) for (int k = 0; k < (a == TDVP ? 4 : 1); ++k) {
    if (dmin > D || (small && (sw == 2 || dmin == 2))) continue;
    std::string id = g.name + "/ref/" + std::to_string(nr) + "/" + std::to_string(D) + "." + std::to_string(dmin) + "." + tn::Num(tr) + "." + std::to_string(sw) + "." + std::to_string(k);
    if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      Plan p{"r", sw, D, tr, 100}; p.dmin = dmin; p.site = k % N; p.kick = k * 3 % 8; p.tau = k & 1 ? -0.15 : 0.2; if (noise) p.noises = std::vector<double>(sw, 1e-30);      // the noisy algorithm, without noise
      std::vector<double> es(nr, 0.0); std::vector<cd> corr;
      auto run = [&](const Plan &q) {
        Put(g); mpiw::Options o; o.ranks = nr; mpiw::World w(o);
        std::string err = w.Run([&](int r) {
          FiniteMPS<E, Q> m(g.sv);
          if constexpr (a == VMPS) es[r] = TwoSiteFiniteVMPS(m, g.mpo, Params<E, Q>(q), MPI_COMM_WORLD);
          else if constexpr (a == DMRG) es[r] = FiniteDMRG(m, g.mat, Params<E, Q>(q), MPI_COMM_WORLD);
          else { auto d = TwoSiteFiniteTDVP(m, g.mpo, TParams(g, q), "corr", MPI_COMM_WORLD); if (r == 0) { corr.clear(); for (auto &x : d) corr.push_back(x.avg); } }
        });
        if (!err.empty()) throw std::runtime_error(err);
      };
      Vec v0; double n0 = 1;
      if constexpr (a == TDVP) { Put(g); v0 = Get(g); Plan q = p; q.sweeps = 0; run(q); auto P = TParams(g, p); std::vector<std::pair<size_t, Mat>> ops{{p.site, tn::OpMat(P.local_op0)}}; if (!P.inst0.IsDefault()) for (size_t i = 0; i < p.site; ++i) ops.push_back({i, tn::OpMat(P.inst0)}); if (nr > 1) n0 = tn::Norm(tn::Product(dims, ops) * v0); }          // alone, the serial code runs and keeps the norm in the state
      else Put(g);
      FiniteMPS<E, Q> m(g.sv); for (size_t i = 0; i < N; ++i) m.LoadTen(i, GenMPSTenName("mps", i));
      ref::Ref r(std::as_const(m), dims, g.h); ref::Trunc t{D, dmin, tr}; bool ok = true; std::vector<Vec> w{r.state()};
      size_t lb = 0, rb = N - 1; if (a != TDVP) r.dmrg_init(D, lb, rb);       // all distributed searches complete the bonds near the ends first
      for (size_t s = 0; s < sw && ok; ++s) { ok = a == TDVP ? r.tdvp_step(p.tau, t) : r.two_range(lb, rb, t); w.push_back(r.state()); }
      if (!ok) { c.outcome("no unique answer: " + r.why); return; }
      run(p); Vec v = Get(g); c.transitions++; c.traces_validated++;
      if constexpr (a != TDVP) {
        if (!(std::abs(es[0] - r.e) < 1e-7)) c.violate("reference-energy", id, "reported " + tn::Num(es[0]) + ", exact updates give " + tn::Num(r.e));
        double d = UpToPhase(w.back(), v); if (!(d < 1e-4)) c.violate("reference-state", id, "differs from the exact updates by " + tn::Num(d));
      } else {
        // what a truncation takes from the norm is not specified: states and rows of correlations agree up to a positive factor
        double d = tn::Norm(tn::Add(tn::Scale(v, 1 / tn::Norm(v)), tn::Scale(w.back(), -1 / tn::Norm(w.back())))); if (!(d < 1e-6)) c.violate("reference-state", id, "differs from the exact updates by " + tn::Num(d));
        auto P = TParams(g, p); if (corr.size() != N * (sw + 1)) c.violate("correlation", id, std::to_string(corr.size()) + " entries");
        for (size_t s = 0; s <= sw && corr.size() == N * (sw + 1); ++s) {
          std::vector<cd> want; cd dot = 0; double ww = 0;
          for (size_t i = 0; i < N; ++i) {
            std::vector<std::pair<size_t, Mat>> o{{i, tn::OpMat(P.local_op1)}}; if (!P.inst1.IsDefault()) for (size_t x = 0; x < i; ++x) o.push_back({x, tn::OpMat(P.inst1)});
            want.push_back(n0 / tn::Norm(w[s]) * tn::Dot(v0, tn::Product(dims, o) * w[s]) * std::exp(cd(0, p.e0 * p.tau * double(s)))); dot += std::conj(want[i]) * corr[s * N + i]; ww += std::norm(want[i]);
          }
          double f = s == sw ? tn::Norm(v) : ww > 1e-10 ? dot.real() / ww : tn::Norm(w[s]); if (ww > 1e-4 && !(f > 0.05 && f < 1 + 1e-6)) c.violate("reference-norm", id, tn::Num(f));
          for (size_t i = 0; i < N; ++i) if (!(std::abs(corr[s * N + i] - f * want[i]) < 1e-6)) { c.violate("reference-correlation", id, "step " + std::to_string(s) + " site " + std::to_string(i) + ": " + tn::Num(corr[s * N + i]) + ", exact updates give " + tn::Num(f * want[i])); break; }
        }
      }
      c.states++; c.note_distinct(mc::hash_str(id)); c.outcome("agrees with the reference"); if (c.states % 531 == 3) c.sample(id);
    });
  }
}

template<typename E, typename Q, typename F>
Sys<E, Q> Make(const std::string &nm, const SiteVec<E, Q> &sv, F f, std::vector<std::vector<size_t>> st, const QLTensor<E, Q> &op) {
  MPOGenerator<E, Q> a(sv, Q()), b(sv, Q()); f(a); f(b); auto m = a.Gen(); auto mat = b.GenMatReprMPO(); Mat h = tn::DenseMpo(m); return Sys<E, Q>{nm, sv, m, mat, h, st, op};
}
template<typename E, typename Q>
Sys<E, Q> Heis(const std::string &nm, size_t n) {
  sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o; SiteVec<E, Q> sv(n, s.phys_bond_out); std::vector<std::vector<size_t>> all;
  for (size_t x = 0; x < (size_t(1) << n); ++x) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = x >> i & 1; if (size_t(__builtin_popcountll(x)) == n / 2) all.push_back(v); }
  return Make<E, Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i + 1 < n; ++i) { double J = 1 + 0.2 * i; h.AddTerm(E(J), o.sz, i, o.sz, i + 1); h.AddTerm(E(0.5 * J), o.sp, i, o.sm, i + 1); h.AddTerm(E(0.5 * J), o.sm, i, o.sp, i + 1); }
    h.AddTerm(E(0.3), o.sz, 0); h.AddTerm(E(0.25), o.sz, 0, o.sz, n - 1); }, all, o.sz);
}
template<typename E>
Sys<E, U1QN> One(const std::string &nm, size_t n) { // spin one
  using Q = U1QN; auto q = [](int v) { return Q({QNCard("2Sz", U1QNVal(v))}); };
  Index<Q> out({QNSector<Q>(q(2), 1), QNSector<Q>(q(0), 1), QNSector<Q>(q(-2), 1)}, OUT), in = InverseIndex(out);
  QLTensor<E, Q> sz({in, out}), sp({in, out}), sm({in, out}); double r2 = std::sqrt(2.0);
  sz({0, 0}) = 1; sz({2, 2}) = -1; sp({1, 0}) = r2; sp({2, 1}) = r2; sm({0, 1}) = r2; sm({1, 2}) = r2;
  SiteVec<E, Q> sv(n, out); std::vector<std::vector<size_t>> all; size_t tot = 1; for (size_t i = 0; i < n; ++i) tot *= 3;
  for (size_t x = 0; x < tot; ++x) { std::vector<size_t> v(n); size_t y = x, sum = 0; for (size_t i = 0; i < n; ++i) { v[i] = y % 3; sum += v[i]; y /= 3; } if (sum == n) all.push_back(v); }
  return Make<E, Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(1.0 + 0.3 * i), sz, i, sz, i + 1); h.AddTerm(E(0.5), sp, i, sm, i + 1); h.AddTerm(E(0.5), sm, i, sp, i + 1); } h.AddTerm(E(0.2), sz, 0); }, all, sz);
}
template<typename E, typename Q>
Sys<E, Q> Hubb(const std::string &nm, size_t n) {
  sites::HubbardSite<Q> s; HubbardOperators<E, Q> o(s); SiteVec<E, Q> sv(n, s.phys_bond_out);
  std::vector<std::vector<size_t>> all; for (size_t x = 0; x < (size_t(1) << (2 * n)); ++x) { std::vector<size_t> v(n); size_t up = 0, dn = 0; for (size_t i = 0; i < n; ++i) { v[i] = x >> (2 * i) & 3; up += v[i] <= 1; dn += v[i] == 0 || v[i] == 2; } if (up == 2 && dn == 1) all.push_back(v); }
  return Make<E, Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i < n; ++i) h.AddTerm(E(2), o.nupndn, i);
    for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(-1), o.bupcF, i, o.bupa, i + 1, o.f); h.AddTerm(E(1), o.bupaF, i, o.bupc, i + 1, o.f); h.AddTerm(E(-1), o.bdnc, i, o.Fbdna, i + 1, o.f); h.AddTerm(E(1), o.bdna, i, o.Fbdnc, i + 1, o.f); } }, all, o.nupndn);
}
#ifndef MPI_NO_MAIN
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx(); Scratch scratch;
  auto all = [&](const std::string &only) {
    bool san = c.mode.size() > 3 && c.mode.substr(c.mode.size() - 3) == "san", th = c.thorough(); std::string m = san ? c.mode.substr(0, c.mode.size() - 3) : c.mode;
    using R = QLTEN_Double; using Z = QLTEN_Complex; 
    std::vector<int> pols{0, 1, 2, 3}, p0{0};
    Plan quick{"q", 1, 64, 0, 2}, tr{"t", 2, 2, 0, 3}, deep{"d", 2, 64, 0, 6};
    auto go = [&](auto a, const auto &g, const Plan &p, int ranks, size_t dev, size_t win, const std::vector<int> &po) { Explore<decltype(a)::value>(g, p, ranks, dev, win, po, only); };
    auto sweeps = [&](auto a) {
      auto run = [&](auto &&... x) { go(a, x...); };
      if (san) { run(Heis<R, U1QN>("h4", 4), tr, 3, 1, 0, p0); run(Hubb<R, U1U1QN>("hub3", 3), quick, 3, 1, 0, p0); return; }
      bool v = decltype(a)::value == VMPS; size_t d2 = v ? 2 : th ? 2 : 1;
      for (int r : {1, 2, 3, 4}) { run(Heis<R, U1QN>("h3", 3), quick, r, 2, v ? 6 : 4, pols); run(Heis<R, U1QN>("h4", 4), tr, r, d2, 4, pols); run(Heis<R, TrivialRepQN>("t3", 3), tr, r, 1, 4, pols); run(Heis<R, U1QN>("h6", 6), Plan{"t2", 1, 2, 0, 4, {}, true}, std::max(r, 2), 1, 0, pols); run(Heis<R, U1QN>("h6", 6), Plan{"t4", 2, 4, 1e-10, 4, {}, true}, std::max(r, 2), 1, 0, pols); }
      for (int r : {2, 3, 4, 5}) { run(Hubb<R, U1U1QN>("hub3", 3), quick, r, v ? 2 : 1, th ? 6 : v ? 5 : 3, pols); run(One<R>("one3", 3), deep, r, v ? 2 : 1, th ? 5 : v ? 4 : 0, pols); run(Heis<Z, U1QN>("z4", 4), deep, r, 1, 0, pols); }
      // continued runs, and continued runs that find a file missing
      Plan cont{"c", 1, 64, 0, 20}; cont.prior = 1; for (int r : {2, 3}) { run(Heis<R, U1QN>("h4", 4), cont, r, 1, 0, pols); run(Heis<R, U1QN>("h5", 5), cont, r, th ? 1 : 0, 0, pols); }
      for (int k = 0; k < 60; ++k) { Plan lost = cont; lost.name = "l" + std::to_string(k); lost.prior = 2 + k; run(Heis<R, U1QN>("h4", 4), lost, 2, 0, 0, p0); if (th) run(Heis<R, U1QN>("h5", 5), lost, 3, 0, 0, p0); }
      if (th) for (int r : {3, 4, 6}) { run(Hubb<R, U1U1QN>("hub4", 4), Plan{"h", 1, 64, 0, 4}, r, 1, 3, pols); run(Heis<Z, U1QN>("z5", 5), Plan{"z", 2, 4, 0, 8}, r, 1, 3, pols); run(One<R>("one4", 4), Plan{"o", 1, 6, 0, 4}, r, 1, 3, pols); }
    };
    auto known = [&] {
#if defined(ALGO_VMPS) || defined(ALGO_ALL)
    if (m == "vmps") { sweeps(std::integral_constant<Algo, VMPS>()); return true; }
#endif
#if defined(ALGO_DMRG) || defined(ALGO_ALL)
    if (m == "dmrg") { sweeps(std::integral_constant<Algo, DMRG>()); return true; }
#endif
#if defined(ALGO_NOISE) || defined(ALGO_ALL)
    if (m == "noise") {
      auto run = [&](auto &&... x) { go(std::integral_constant<Algo, VMPS>(), x...); };
      Plan n1{"n1", 1, 64, 0, 12, {0.1}}, n2{"n2", 3, 64, 0, 30, {0.1, 0.01, 0.0}};
      if (san) { run(Heis<R, U1QN>("h4", 4), n2, 3, 1, 0, p0); return true; }
      for (int r : {1, 2, 3, 4}) { run(Heis<R, U1QN>("h3", 3), n1, r, 2, 4, pols); run(Heis<R, U1QN>("h4", 4), n1, r, th || r == 2 ? 2 : 1, th ? 4 : 0, pols); run(Heis<R, U1QN>("h4", 4), n2, r, 1, 0, pols); run(Heis<Z, U1QN>("h5", 5), n2, r, 1, 0, pols); run(Hubb<R, U1U1QN>("hub3", 3), n2, r, 1, 0, pols); run(Hubb<R, U1U1QN>("hub4", 4), n1, r, 1, 0, pols); run(One<R>("one3", 3), n2, r, 1, 0, pols); }
      Plan cont{"c", 3, 64, 0, 30, {0.1, 0.01, 0.0}}; cont.prior = 1; for (int r : {1, 2, 3}) run(Heis<R, U1QN>("h4", 4), cont, r, 1, 0, pols);
      for (int k = 0; k < 60; ++k) { Plan lost = cont; lost.name = "l" + std::to_string(k); lost.prior = 2 + k; run(Heis<R, U1QN>("h4", 4), lost, 2, 0, 0, p0); }
      return true;
    }
#endif
#if defined(ALGO_TDVP) || defined(ALGO_ALL)
    if (m == "tdvp") {
      auto run = [&](auto &&... x) { go(std::integral_constant<Algo, TDVP>(), x...); };
      if (san) { run(Heis<Z, U1QN>("h4", 4), quick, 3, 1, 0, p0); return true; }
      for (int r : {1, 2, 3, 4}) { run(Heis<Z, U1QN>("h3", 3), quick, r, 2, 6, pols); run(Heis<Z, U1QN>("h4", 4), Plan{"t", 2, 3, 0, 30}, r, 2, 4, pols); run(Heis<Z, TrivialRepQN>("t3", 3), Plan{"d", 2, 64, 0, 30}, r, 1, 4, pols); run(Heis<Z, U1QN>("h5", 5), Plan{"f", 1, 64, 0, 12}, r, 1, th ? 4 : 0, pols); run(One<Z>("one3", 3), Plan{"o", 2, 64, 0, 20}, r, 1, th ? 4 : 0, pols); }
      for (size_t site = 0; site < 4; ++site) for (int k = 0; k < 8; ++k) { Plan kp{"k" + std::to_string(site) + std::to_string(k), 1, 64, 0, 20}; kp.site = site; kp.kick = k; kp.tau = k & 1 ? -0.07 : 0.1; kp.e0 = k & 2 ? 0.9 : -0.4; run(Heis<Z, U1QN>("h4", 4), kp, 2 + k % 2, 0, 0, p0); if (th) { run(One<Z>("one4", 4), kp, 3, 0, 0, pols); run(Heis<Z, TrivialRepQN>("t4", 4), kp, 2, 1, 0, p0); } }
      Plan stale{"s", 1, 64, 0, 20}; stale.prior = 1; for (int r : {1, 2, 3}) run(Heis<Z, U1QN>("h4", 4), stale, r, 1, 0, pols);
      if (th) for (int r : {3, 4, 6}) { run(Heis<Z, U1QN>("h6", 6), Plan{"g", 1, 6, 0, 8}, r, 1, 3, pols); run(One<Z>("one4", 4), Plan{"o", 1, 6, 0, 8}, r, 1, 3, pols); }
      return true;
    }
#endif
    return false;
    };
    (void) sweeps; (void) quick; (void) tr; (void) deep;
    if (m == "ref") {
      std::vector<int> nr{2, 3}; if (th) nr = {1, 2, 3, 4};
      auto refs = [&](auto al, bool noise) {
        constexpr Algo A = decltype(al)::value; const bool th = c.thorough() || A != TDVP; using E = std::conditional_t<A == TDVP, Z, R>;
        Reference<A>(Heis<E, U1QN>("h4", 4), nr, noise, false, only); Reference<A>(Heis<E, U1QN>("h6", 6), {3}, noise, !th, only); Reference<A>(Heis<E, TrivialRepQN>("t4", 4), nr, noise, !th, only); Reference<A>(One<E>("one3", 3), {2}, noise, !th, only); Reference<A>(Hubb<E, U1U1QN>("hub3", 3), {3}, noise, !th, only); Reference<A>(Heis<Z, U1QN>("z5", 5), {2}, noise, !th, only);
      };
#if defined(ALGO_VMPS)
      refs(std::integral_constant<Algo, VMPS>(), false);
#elif defined(ALGO_NOISE)
      refs(std::integral_constant<Algo, VMPS>(), true);
#elif defined(ALGO_DMRG)
      refs(std::integral_constant<Algo, DMRG>(), false);
#elif defined(ALGO_TDVP)
      refs(std::integral_constant<Algo, TDVP>(), false);
#endif
      return;
    }
    if (!known()) throw std::runtime_error("unknown mode");
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
#endif
