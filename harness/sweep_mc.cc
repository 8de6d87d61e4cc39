// Ground-state sweeps (two-site, two-site with noise, single-site, DMRG) on the real
// headers: all histories of runs, restarts, lost environment files and re-centering,
// each followed by a check of the files on disk against exact diagonalization.
// Modes: two, single, dmrg, twosan, singlesan, dmrgsan (histories), resume, conv, stop.
#if !defined(ONLY_TWO) && !defined(ONLY_SINGLE) && !defined(ONLY_DMRG)   // built per algorithm to save compile time
#define WITH_TWO
#define WITH_SINGLE
#define WITH_DMRG
#elif defined(ONLY_TWO)
#define WITH_TWO
#elif defined(ONLY_SINGLE)
#define WITH_SINGLE
#else
#define WITH_DMRG
#endif
#include "ref.h"
#include "scratch.h"
#include <sys/wait.h>
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using tn::cd; using tn::Mat; using tn::Vec;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
namespace fs = std::filesystem;

template<typename E, typename Q>
struct Sys {
  std::string name; SiteVec<E, Q> sv; MPO<QLTensor<E, Q>> mpo; MatReprMPO<QLTensor<E, Q>> mr; Mat h;
  std::vector<std::vector<std::vector<size_t>>> starts;      // supports; random amplitudes when more than one
  std::vector<size_t> dims() const { std::vector<size_t> d; for (auto &s : sv.sites) d.push_back(s.dim()); return d; }
};
// charge of every basis state, as a printable key
template<typename E, typename Q>
std::vector<std::string> Charges(const SiteVec<E, Q> &sv) {
  std::vector<Q> q(1); bool first = true; std::vector<std::string> key(1);
  std::vector<std::vector<size_t>> lab(1);
  for (auto &ix : sv.sites) {
    std::vector<Q> site; for (auto &sct : ix.GetQNScts()) for (size_t k = 0; k < sct.dim(); ++k) site.push_back(sct.GetQn());
    std::vector<Q> nx; for (auto &a : q) for (auto &b : site) nx.push_back(first ? b : a + b);
    q.swap(nx); first = false;
  }
  std::vector<std::string> o; std::map<size_t, size_t> seen; for (auto &x : q) { size_t h = x.Hash(); o.push_back(std::to_string(seen.emplace(h, seen.size()).first->second)); } return o;
}
template<typename E, typename Q>
FiniteMPS<E, Q> Start(const Sys<E, Q> &g, size_t which) {
  FiniteMPS<E, Q> m(g.sv); qlten::shim::Rng() = which * 104729 + 17;
  if (g.starts[which].size() == 1) DirectStateInitMps(m, g.starts[which][0]); else { ExtendDirectRandomInitMps(m, g.starts[which], 2); }
  m.Centralize(0); return m;
}

enum Alg { TWO, NOISE, SINGLE, SNOISE, DMRG, ALGS };
static const char *kAlg[] = {"two-site", "two-site+noise", "single-site", "single-site+noise", "dmrg"};
struct Run { int alg; size_t D; size_t sweeps; double lerr; size_t liter; std::vector<double> noises; size_t dmin = 1; double trunc = 0; };
inline std::string Show(const Run &r) { return std::string(kAlg[r.alg]) + " D" + std::to_string(r.D) + " x" + std::to_string(r.sweeps) + (r.liter < 10 ? " lanczos<=" + std::to_string(r.liter) : "") + (r.trunc > 0 ? " trunc" : ""); }

static const char *kMps = "mpsdir", *kTmp = "tmpdir";
template<typename E, typename Q>
double Go(const Sys<E, Q> &g, const Run &r) {
  LanczosParams lp(r.lerr, r.liter); FiniteMPS<E, Q> m(g.sv); double e;
  std::vector<double> n = r.noises; if (n.empty() && (r.alg == NOISE || r.alg == SNOISE)) n = {0.1, 0.01, 0.001, 0.0};
  FiniteVMPSSweepParams p = n.empty() ? FiniteVMPSSweepParams(r.sweeps, r.dmin, r.D, r.trunc, lp, std::string(kMps), std::string(kTmp))
                                      : FiniteVMPSSweepParams(r.sweeps, r.dmin, r.D, r.trunc, lp, n, 1.0, 1.02, 0.95, 0.3, std::string(kMps), std::string(kTmp));
  switch (r.alg) {
#ifdef WITH_TWO
    case TWO: case NOISE: e = TwoSiteFiniteVMPS(m, g.mpo, p); break;
#endif
#ifdef WITH_SINGLE
    case SINGLE: case SNOISE: e = SingleSiteFiniteVMPS(m, g.mpo, p); break;
#endif
#ifdef WITH_DMRG
    case DMRG: e = FiniteDMRG(m, g.mr, p); break;
#endif
    default: throw std::logic_error("algorithm not built");
  }
  if (!m.empty()) mc::ctx().violate("mps-not-released", "", "");
  return e;
}
template<typename E, typename Q>
FiniteMPS<E, Q> FromDisk(const Sys<E, Q> &g) { FiniteMPS<E, Q> m(g.sv); for (size_t i = 0; i < m.size(); ++i) m.LoadTen(i, GenMPSTenName(kMps, i)); return m; }
inline size_t MaxD(const std::vector<size_t> &d) { size_t l = 1, b = 1; for (size_t i = 0; i + 1 < d.size(); ++i) { l *= d[i]; size_t r = 1; for (size_t k = i + 1; k < d.size(); ++k) r *= d[k]; b = std::max(b, std::min(l, r)); } return b; }

// What is on disk now.
template<typename E, typename Q> struct Seen { Vec v; double norm, energy; };
template<typename E, typename Q>
Seen<E, Q> Look(const Sys<E, Q> &g, const std::string &id, const Run &r, double e, double before, bool full_before, const std::string &sector, double e0, double &energy_out) {
  auto &c = mc::ctx(); auto m = FromDisk(g); const auto &k = m; Seen<E, Q> s; s.v = tn::DenseMps(k); s.norm = tn::Norm(s.v); s.energy = tn::Dot(s.v, g.h * s.v).real() / (s.norm * s.norm);
  size_t n = g.sv.size; c.traces_validated++;
  static std::map<std::string, std::vector<std::string>> chs; auto &ch = chs[g.name]; if (ch.empty()) ch = Charges(g.sv);
  double leak = 0; for (size_t i = 0; i < s.v.size(); ++i) if (ch[i] != sector) leak = std::max(leak, std::abs(s.v[i]));
  if (leak > 1e-10) c.violate("left-the-charge-sector", id, tn::Num(leak));
  bool full = r.trunc == 0 && r.D >= ((r.alg == NOISE || r.alg == SNOISE) ? 32 : MaxD(g.dims()));   // noise enlarges the space that is truncated
  // canonical form: at most one tensor is not an isometry pointing at the center
  size_t lo = 0; while (lo < n && tn::LeftDefect(k[lo]) < 1e-9) ++lo;
  size_t hi = n; while (hi > 0 && tn::RightDefect(k[hi - 1]) < 1e-9) --hi;      // [hi, n) right canonical
  bool want;                                                // documented center
  if (r.alg == TWO) want = lo >= 1 && hi <= 2; else if (r.alg == NOISE) want = lo + 1 >= hi; else want = hi <= 1;
  if (r.sweeps > 0 && !want) c.violate("center", id, "left canonical below " + std::to_string(lo) + ", right canonical from " + std::to_string(hi));
  size_t D = 1; for (size_t i = 0; i + 1 < n; ++i) { D = std::max(D, k[i].GetShape()[2]); if (k[i].GetShape()[2] != k[i + 1].GetShape()[0]) c.violate("bond", id, ""); }
  if (D > std::max(r.D, size_t(1))) c.violate("bond-limit", id, std::to_string(D) + " > " + std::to_string(r.D));
  if (!(s.norm < 1 + 1e-7) || !(s.norm > 1e-3)) c.violate("norm", id, tn::Num(s.norm));
  if (!(e > e0 - 1e-8)) c.violate("below-the-ground-state", id, tn::Num(e) + " < " + tn::Num(e0));
  if (full) {
    if (!(std::abs(s.norm - 1) < 1e-7)) c.violate("not-normalized", id, tn::Num(s.norm));
    if (!(std::abs(e - s.energy) < 1e-7)) c.violate("energy", id, "reported " + tn::Num(e) + ", state has " + tn::Num(s.energy));
    if (full_before && !(e < before + 1e-8)) c.violate("energy-rises", id, tn::Num(before) + " -> " + tn::Num(e));
  }
  energy_out = s.energy; return s;
}

template<typename E, typename Q>
void Recenter(const Sys<E, Q> &g) { auto m = FromDisk(g); m.Centralize(0); m.Dump(kMps, true); }

// One step of a history.
struct Step { int kind; Run run; };   // 0 fresh (re-center, no environments)  1 continue  2 continue without environments  3 continue, one environment file lost
template<typename E, typename Q>
bool Allowed(const std::vector<Step> &h, const Step &s) {
  if (s.kind == 0) return true; if (h.empty()) return false; auto &p = h.back().run;
  if (p.alg != s.run.alg || s.run.D < p.D) return false;
  return true;
}
template<typename E, typename Q>
void RunHistory(const Sys<E, Q> &g, const std::string &id, size_t start, const std::vector<Step> &h, size_t lose) {
  auto &c = mc::ctx(); fs::remove_all(kMps); fs::remove_all(kTmp);
  auto m = Start(g, start); Vec v0 = tn::DenseMps(std::as_const(m)); m.Dump(kMps, true);
  double energy = tn::Dot(v0, g.h * v0).real() / (tn::Norm(v0) * tn::Norm(v0));
  auto ch = Charges(g.sv); std::string sec; for (size_t i = 0; i < v0.size(); ++i) if (std::abs(v0[i]) > 1e-9) { sec = ch[i]; break; }
  std::vector<size_t> keep; for (size_t i = 0; i < ch.size(); ++i) if (ch[i] == sec) keep.push_back(i);
  double e0 = tn::Spectrum(g.h, keep)[0]; bool full = true;
  for (auto &s : h) {
    if (s.kind == 0) { fs::remove_all(kTmp); Recenter(g); }
    if (s.kind == 2) fs::remove_all(kTmp);
    if (s.kind == 3) {
      std::vector<fs::path> f; for (auto &x : fs::directory_iterator(kTmp)) f.push_back(x.path()); std::sort(f.begin(), f.end()); if (f.empty()) { c.violate("no-environments", id, ""); return; }
      // every file is lost in turn; the run rebuilds what it needs and is a run like any other, or it reports the loss
      fs::remove_all("keep"); fs::create_directory("keep"); auto cp = fs::copy_options::recursive; fs::copy(kMps, std::string("keep/") + kMps, cp); fs::copy(kTmp, std::string("keep/") + kTmp, cp);
      bool must = s.run.alg == NOISE || s.run.alg == DMRG; double now = energy; bool last = &s == &h.back();
      for (size_t i = 0; i < f.size(); ++i) {
        if (!last && i != lose % f.size()) continue; else if (i > 0) { fs::remove_all(kMps); fs::remove_all(kTmp); fs::copy(std::string("keep/") + kMps, kMps, cp); fs::copy(std::string("keep/") + kTmp, kTmp, cp); }
        fs::remove(f[i]); double e; energy = now;
        try { e = Go(g, s.run); } catch (std::exception &x) { if (must) c.violate("lost-environment", id, f[i].filename().string() + ": " + x.what()); c.outcome("loss reported"); if (!last) return; continue; }
        c.transitions++; Look(g, id, s.run, e, now, full, sec, e0, energy);
      }
      fs::remove_all("keep"); full = s.run.trunc == 0 && s.run.D >= MaxD(g.dims()); continue;
    }
    double e = Go(g, s.run); c.transitions++;
    Look(g, id, s.run, e, energy, full, sec, e0, energy); full = s.run.trunc == 0 && s.run.D >= MaxD(g.dims());
  }
  c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(kAlg[h.back().run.alg]);
}
template<typename E, typename Q>
void Histories(const Sys<E, Q> &g, const std::vector<Run> &runs, size_t depth, const std::string &only) {
  auto &c = mc::ctx();
  std::vector<Step> ops; for (auto &r : runs) for (int k = 0; k < 4; ++k) ops.push_back({k, r});
  for (size_t st = 0; st < g.starts.size(); ++st) {
    std::vector<size_t> h; std::vector<Step> hs;
    std::function<void()> rec = [&] {
      for (size_t o = 0; o < ops.size(); ++o) {
        if (!Allowed<E, Q>(hs, ops[o])) continue;
        h.push_back(o); hs.push_back(ops[o]); size_t L = ops[o].kind == 3 && h.size() < depth ? 4 : 1;
        for (size_t l = 0; l < L; ++l) {
          std::string id = g.name + "/" + std::to_string(st); for (auto x : h) id += "." + std::to_string(x); if (l) id += "~" + std::to_string(l);
          if (only.empty() ? c.mine() : only == id) {
            if (!only.empty()) for (auto &s : hs) std::cerr << "kind " << s.kind << " " << Show(s.run) << "\n";
            tn::Case(id, [&] { RunHistory(g, id, st, hs, l); });
            if (c.states % 997 == 5) { std::string s; for (auto &x : hs) s += std::string(x.kind == 0 ? "fresh " : x.kind == 1 ? "continue " : x.kind == 2 ? "no-env " : "lost-env ") + Show(x.run) + "; "; c.sample(g.name + ": " + s); }
          }
        }
        if (h.size() < depth) rec();
        h.pop_back(); hs.pop_back();
      }
    };
    rec();
  }
  c.info[g.name] = std::to_string(ops.size()) + " steps, depth " + std::to_string(depth) + ", " + std::to_string(g.starts.size()) + " starts";
}

// ---- k sweeps and then l sweeps are k + l sweeps (the files carry everything)
template<typename E, typename Q>
void Resume(const Sys<E, Q> &g, const std::string &only) {
  auto &c = mc::ctx();
  for (size_t st = 0; st < g.starts.size(); ++st) for (int alg = 0; alg < ALGS; ++alg) for (size_t D : {64, 2}) for (size_t liter : {100, 3}) for (size_t k = 1; k <= 3; ++k) for (size_t l = 1; k + l <= 4; ++l) for (int mode = 0; mode < 2; ++mode) {
    if (mode == 1 && alg != TWO && alg != DMRG) continue;        // mode 1: the environments are rebuilt
    if (alg == NOISE || alg == SNOISE) continue;                 // the running noise adapts within a run
    if (alg == DMRG && liter < 100) continue;                    // the boundary bonds are completed at the start of a run: other Krylov spaces
    std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(alg) + "." + std::to_string(D) + "." + std::to_string(liter) + "." + std::to_string(k) + "." + std::to_string(l) + "." + std::to_string(mode);
    if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      auto part = [&](size_t, size_t n) { return Run{alg, D, n, 1e-10, liter, {}}; };
      auto reset = [&] { fs::remove_all(kMps); fs::remove_all(kTmp); auto m = Start(g, st); m.Dump(kMps, true); };
      reset(); double e = Go(g, part(0, k + l)); Vec a = tn::DenseMps(std::as_const(*std::make_unique<FiniteMPS<E, Q>>(FromDisk(g))));
      reset(); Go(g, part(0, k)); if (mode) fs::remove_all(kTmp); double f = Go(g, part(k, l)); Vec b = tn::DenseMps(std::as_const(*std::make_unique<FiniteMPS<E, Q>>(FromDisk(g))));
      c.transitions += 3; c.traces_validated++; double ov = std::abs(tn::Dot(a, b)) / (tn::Norm(a) * tn::Norm(b));
      if (!(std::abs(e - f) < 1e-6)) c.violate("resumed-energy", id, tn::Num(e) + " in one run, " + tn::Num(f) + " in two");
      if (!(std::abs(ov - 1) < 1e-4)) c.violate("resumed-state", id, "overlap " + tn::Num(ov));
      c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(kAlg[alg]); if (c.states % 97 == 3) c.sample(id);
    });
  }
}
// ---- from a generic state the sweeps find the ground state of the sector
template<typename E, typename Q>
void Converge(const Sys<E, Q> &g, const std::string &only) {
  auto &c = mc::ctx();
  for (size_t st = 0; st < g.starts.size(); ++st) for (int alg = 0; alg < ALGS; ++alg) for (size_t sweeps : {4, 8}) {
    bool generic = g.starts[st].size() > 1; if (!generic && (alg == SINGLE)) continue;      // single-site sweeps keep the bond dimension
    std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(alg) + "." + std::to_string(sweeps);
    if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      fs::remove_all(kMps); fs::remove_all(kTmp); auto m = Start(g, st); Vec v0 = tn::DenseMps(std::as_const(m)); m.Dump(kMps, true);
      auto ch = Charges(g.sv); std::string sec; for (size_t i = 0; i < v0.size(); ++i) if (std::abs(v0[i]) > 1e-9) { sec = ch[i]; break; }
      std::vector<size_t> keep; for (size_t i = 0; i < ch.size(); ++i) if (ch[i] == sec) keep.push_back(i);
      Vec hv = g.h * v0; double n2 = tn::Norm(v0) * tn::Norm(v0), en = tn::Dot(v0, hv).real() / n2, var = tn::Dot(hv, hv).real() / n2 - en * en;
      double e0 = tn::Spectrum(g.h, keep)[0]; if (var < 1e-8 && en > e0 + 1e-8) return;      // an excited eigenstate stays one
      double e = Go(g, Run{alg, 64, sweeps, 1e-12, 100, {}}); c.transitions++; c.traces_validated++;
      if (!(e < e0 + 1e-5) || !(e > e0 - 1e-8)) c.violate("not-the-ground-state", id, tn::Num(e) + ", exact " + tn::Num(e0));
      c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(kAlg[alg]); c.sample(id);
    });
  }
}
// ---- the exact reference of the documented sequence of local updates
struct Ref : ref::Ref { using ref::Ref::Ref;
  bool run(const Run &p) {
    size_t lb = 0, rb = d.size() - 1; if (p.alg == DMRG || p.alg == NOISE) dmrg_init(p.D, lb, rb);      // completed boundary bonds
    for (size_t k = 0; k < p.sweeps; ++k) if (!(p.alg == SINGLE || p.alg == SNOISE ? one_sweep(p) : p.alg == DMRG || p.alg == NOISE ? two_range(lb, rb, p) : two_sweep(p))) return false;
    return true;
  }
};
template<typename E, typename Q>
void Reference(const Sys<E, Q> &g, const std::string &only, size_t maxsweeps) {
  auto &c = mc::ctx(); std::vector<int> algs;
#ifdef WITH_TWO
  algs.push_back(TWO); algs.push_back(NOISE);
#endif
#ifdef WITH_SINGLE
  algs.push_back(SINGLE); algs.push_back(SNOISE);
#endif
#ifdef WITH_DMRG
  algs.push_back(DMRG);
#endif
  for (size_t st = 0; st < g.starts.size(); ++st) for (int alg : algs) for (size_t D : {1, 2, 3, 4, 5, 6, 64}) for (size_t dmin : {1, 2, 3}) for (double tr : {1e-12, 1e-6, 1e-4, 1e-3, 1e-2, 5e-2, 0.2}) for (size_t sw = 1; sw <= maxsweeps; ++sw) {
    if (dmin > D) continue; std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(alg) + "." + std::to_string(D) + "." + std::to_string(dmin) + "." + tn::Num(tr) + "." + std::to_string(sw);
    if (only.empty() ? !c.mine() : only != id) continue;
    tn::Case(id, [&] {
      Run p{alg, D, sw, 1e-14, 100, {}, dmin, tr}; if (alg == NOISE || alg == SNOISE) p.noises = std::vector<double>(sw, 1e-30);      // the path of the noisy algorithms, without noise
      fs::remove_all(kMps); fs::remove_all(kTmp); auto m = Start(g, st); m[0] *= E(1.0 / m[0].Get2Norm()); m.Dump(kMps, false);
      Ref r(std::as_const(m), g.dims(), g.h);
      if (!r.run(p)) { c.outcome("no unique answer: " + r.why); return; }
      double e = Go(g, p); auto k = FromDisk(g); Vec v = tn::DenseMps(std::as_const(k)), w = r.state(); c.transitions++; c.traces_validated++;
      if (!(std::abs(e - r.e) < 1e-7)) c.violate("reference-energy", id, "reported " + tn::Num(e) + ", exact updates give " + tn::Num(r.e));
      cd o = tn::Dot(w, v); double n = std::abs(o); double dist = n > 1e-9 ? tn::Norm(tn::Add(v, tn::Scale(w, -o / n))) : 1.0;
      if (!(dist < 1e-4)) c.violate("reference-state", id, "differs from the exact updates by " + tn::Num(dist));
      c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(std::string("agrees, ") + kAlg[alg]); if (c.states % 531 == 3) c.sample(id + ": " + tn::Num(e));
    });
  }
}
// ---- DMRG stopped by a signal at every step of its execution: at every console line, contraction, decomposition and file access
struct Steps { int sig = 0; long at = -1, n = 0, sites = 0; std::vector<long> seen; bool record = false;
  void hit() { if (record) seen.push_back(sites); if (n++ == at) raise(sig); } };
static Steps *g_steps = nullptr;
struct LineBuf : std::streambuf {
  std::string line;
  int overflow(int ch) override { if (ch == '\n') { if (line.compare(0, 4, "Site") == 0) g_steps->sites++; g_steps->hit(); line.clear(); } else if (line.size() < 8) line.push_back(char(ch)); return ch; }
};
template<typename E, typename Q>
void Stop(const Sys<E, Q> &g, const std::string &only) {
  auto &c = mc::ctx(); static const int sigs[] = {SIGINT, SIGUSR1, SIGTERM, SIGUSR2};
  auto hook = +[] { g_steps->hit(); };
  for (size_t st = 0; st < g.starts.size(); ++st) for (size_t D : {64, 2}) for (size_t kSweeps : {2, 3}) {
    bool few = !c.thorough() && (D != 64 || kSweeps != 2);      // quick: all steps for one setting, elsewhere the console lines and file accesses of the Lanczos-free parts
    Run full{DMRG, D, kSweeps, 1e-10, 100, {}}; Steps all; all.record = true;
    {       // the steps of the undisturbed run
      fs::remove_all(kMps); fs::remove_all(kTmp); auto m = Start(g, st); m.Dump(kMps, true);
      g_steps = &all; LineBuf lb; auto *old = std::cout.rdbuf(&lb); qlten::shim::StepHook() = hook; Go(g, full); qlten::shim::StepHook() = nullptr; std::cout.rdbuf(old);
      std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(D) + "." + std::to_string(kSweeps);
      if (all.sites == 0 || all.sites % long(kSweeps)) { c.violate("updates", id, std::to_string(all.sites)); continue; }
    }
    long total = all.sites, per = total / long(kSweeps);
    std::vector<long> where; for (long k = 0; k < all.n; ++k) {
      // steps next to a change of the number of finished updates, the beginning and the end, are always taken; the others at a stride
      long back = 0, fwd = 0; while (k - back > 0 && back < 12 && all.seen[k - back - 1] == all.seen[k]) ++back; while (k + fwd + 1 < all.n && fwd < 12 && all.seen[k + fwd + 1] == all.seen[k]) ++fwd;
      if (!few || back < 6 || fwd < 3) where.push_back(k); }
    for (int s = 0; s < 4; ++s) for (long at : where) {
      if (s >= 2 && !(all.seen[at] != (at ? all.seen[at - 1] : 0))) continue;       // SIGTERM and SIGUSR2: once per update
      std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(D) + "." + std::to_string(kSweeps) + "." + std::to_string(s) + "." + std::to_string(at);
      if (only.empty() ? !c.mine() : only != id) continue;
      tn::Case(id, [&] {
        // the signal flags are global to a process: every stopped run gets its own
        fs::remove_all(kMps); fs::remove_all(kTmp); auto m = Start(g, st); Vec v0 = tn::DenseMps(std::as_const(m)); m.Dump(kMps, true);
        std::ofstream("result").close();
        pid_t p = fork();
        if (p == 0) { Steps ev; ev.sig = sigs[s]; ev.at = at; g_steps = &ev; LineBuf lb; std::cout.rdbuf(&lb); qlten::shim::StepHook() = hook;
          double e = 1e300; int rc = 0; try { e = Go(g, full); } catch (...) { rc = 3; } qlten::shim::StepHook() = nullptr; std::ofstream o("result"); o.precision(17); o << rc << " " << e << " " << ev.sites << " " << (ev.n > at); o.close(); _exit(0); }
        int status = 0; while (waitpid(p, &status, 0) < 0 && errno == EINTR);
        if (!WIFEXITED(status)) { c.violate("killed-by-signal", id, "status " + std::to_string(status)); return; }
        int rc = 9, raised = 0; double e = 0; long done = 0; std::ifstream in("result"); in >> rc >> e >> done >> raised;
        if (rc != 0) { c.violate("exception", id, "after the signal"); return; }
        if (!raised) { c.violate("steps", id, "the run is not reproducible"); return; }
        bool emergency = s % 2 == 0; long u = all.seen[at];
        // ends at the next possibility; a signal after the last look of an update or sweep takes effect one later
        long lo = emergency ? std::max(u, 1l) : std::max((u + per - 1) / per, 1l) * per, hi = emergency ? u + 1 : (u / per + 1) * per; lo = std::min(lo, total); hi = std::min(hi, total);
        if (done < lo || done > hi || (!emergency && done % per)) c.violate(emergency ? "emergency-stop" : "graceful-stop", id, std::to_string(done) + " updates instead of " + std::to_string(lo) + (hi > lo ? " or " + std::to_string(hi) : ""));
        c.transitions++; c.traces_validated++;
        auto ch = Charges(g.sv); std::string sec; for (size_t i = 0; i < v0.size(); ++i) if (std::abs(v0[i]) > 1e-9) { sec = ch[i]; break; }
        std::vector<size_t> keep; for (size_t i = 0; i < ch.size(); ++i) if (ch[i] == sec) keep.push_back(i);
        double e0 = tn::Spectrum(g.h, keep)[0], en = 0;
        for (size_t i = 0; i < g.sv.size; ++i) if (!fs::exists(GenMPSTenName(kMps, i))) { c.violate("missing-tensor", id, std::to_string(i)); return; }
        if (done % per == 0 && !emergency) {
          Run eq = full; eq.sweeps = size_t(done / per);
          Look(g, id, eq, e, 1e300, false, sec, e0, en); Vec a = tn::DenseMps(std::as_const(*std::make_unique<FiniteMPS<E, Q>>(FromDisk(g))));
          // what is left behind is what a shorter run leaves, and resuming continues the calculation
          double again = 0; bool resume = eq.sweeps < kSweeps; if (resume) { Run rest = full; rest.sweeps = kSweeps - eq.sweeps; again = Go(g, rest); c.transitions++; }
          static std::map<std::string, std::pair<double, Vec>> memo;
          auto ref = [&](const Run &r) -> const std::pair<double, Vec> & {
            auto key = g.name + "." + std::to_string(st) + "." + std::to_string(D) + "." + std::to_string(r.sweeps); auto it = memo.find(key);
            if (it == memo.end()) { fs::remove_all(kMps); fs::remove_all(kTmp); auto x = Start(g, st); x.Dump(kMps, true); double f = Go(g, r); it = memo.emplace(key, std::make_pair(f, tn::DenseMps(std::as_const(*std::make_unique<FiniteMPS<E, Q>>(FromDisk(g)))))).first; }
            return it->second; };
          auto &w = ref(eq);
          if (!(std::abs(e - w.first) < 1e-8)) c.violate("stopped-energy", id, tn::Num(e) + " instead of " + tn::Num(w.first));
          double ov = std::abs(tn::Dot(a, w.second)) / (tn::Norm(a) * tn::Norm(w.second)); if (!(std::abs(ov - 1) < 1e-6)) c.violate("stopped-state", id, "overlap " + tn::Num(ov));
          if (resume) { double h = ref(full).first; if (!(std::abs(h - again) < 1e-6)) c.violate("resume-after-stop", id, tn::Num(again) + " instead of " + tn::Num(h)); }
        } else {
          // the state on disk is the one the last update produced
          auto k = FromDisk(g); Vec v = tn::DenseMps(std::as_const(k)); double n = tn::Norm(v); en = tn::Dot(v, g.h * v).real() / (n * n);
          if (D == 64 && !(std::abs(n - 1) < 1e-6)) c.violate("norm", id, tn::Num(n));
          if (!(n < 1 + 1e-6) || !(n > 1e-3)) c.violate("norm", id, tn::Num(n));
          if (D == 64 && !(std::abs(en - e) < 1e-6)) c.violate("energy", id, tn::Num(e) + ", state has " + tn::Num(en));
          size_t l = 0, r = g.sv.size; while (l < g.sv.size && tn::LeftDefect(std::as_const(k)[l]) < 1e-9) ++l; while (r > 0 && tn::RightDefect(std::as_const(k)[r - 1]) < 1e-9) --r;
          if (l + 1 < r) c.violate("center", id, "left canonical below " + std::to_string(l) + ", right canonical from " + std::to_string(r));
          double leak = 0; for (size_t i = 0; i < v.size(); ++i) if (ch[i] != sec) leak = std::max(leak, std::abs(v[i])); if (leak > 1e-10) c.violate("left-the-charge-sector", id, tn::Num(leak));
          // re-centered, it is a valid input again
          Recenter(g); fs::remove_all(kTmp); Run rest = full; rest.sweeps = 1; double f = Go(g, rest); c.transitions++; if (D == 64 && !(f < e + 1e-7)) c.violate("resume-after-stop", id, tn::Num(f) + " after " + tn::Num(e));
          if (!(f > e0 - 1e-8)) c.violate("below-the-ground-state", id, tn::Num(f));
        }
        c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(emergency ? "emergency" : "graceful"); if (c.states % 531 == 3) c.sample(id);
      });
    }
  }
}

// ---- systems
template<typename E, typename Q, typename F>
Sys<E, Q> Make(const std::string &nm, const SiteVec<E, Q> &sv, F f, std::vector<std::vector<std::vector<size_t>>> st) {
  MPOGenerator<E, Q> a(sv, Q()), b(sv, Q()); f(a); f(b); auto m = a.Gen(); auto r = b.GenMatReprMPO(); Mat h = tn::DenseMpo(m);
  return Sys<E, Q>{nm, sv, m, r, h, st};
}
template<typename E, typename Q>
Sys<E, Q> Heis(const std::string &nm, size_t n, bool field) {
  sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o; SiteVec<E, Q> sv(n, s.phys_bond_out);
  std::vector<size_t> neel(n), dom(n); for (size_t i = 0; i < n; ++i) { neel[i] = i % 2; dom[i] = i >= n - n / 2; }
  std::vector<std::vector<size_t>> all; size_t up = n / 2; for (size_t x = 0; x < (size_t(1) << n); ++x) if (size_t(__builtin_popcountll(x)) == up) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = x >> i & 1; all.push_back(v); }
  return Make<E, Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i + 1 < n; ++i) { double J = 1 + 0.2 * i; h.AddTerm(E(J), o.sz, i, o.sz, i + 1); h.AddTerm(E(0.5 * J), o.sp, i, o.sm, i + 1); h.AddTerm(E(0.5 * J), o.sm, i, o.sp, i + 1); }
    if (field) { h.AddTerm(E(0.3), o.sz, 0); h.AddTerm(E(0.25), o.sz, 0, o.sz, n - 1);
      if constexpr (std::is_same_v<E, QLTEN_Complex>) { h.AddTerm(E(0, 0.3), o.sp, 0, o.sm, 1); h.AddTerm(E(0, -0.3), o.sm, 0, o.sp, 1); } } }, {{neel}, {dom}, all, {std::vector<size_t>(n, 0)}});
}
template<typename E, typename Q>
Sys<E, Q> Hubb(const std::string &nm, size_t n) {
  sites::HubbardSite<Q> s; HubbardOperators<E, Q> o(s); SiteVec<E, Q> sv(n, s.phys_bond_out); // |2>,|up>,|dn>,|0>
  std::vector<size_t> a(n), b(n); for (size_t i = 0; i < n; ++i) { a[i] = i % 2 ? 2 : 1; b[i] = n - 1 - i < 1 ? (n % 2 ? 1 : 2) : a[i]; }
  return Make<E, Q>(nm, sv, [&](auto &h) { for (size_t i = 0; i < n; ++i) h.AddTerm(E(2), o.nupndn, i);
    for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(-1), o.bupcF, i, o.bupa, i + 1, o.f); h.AddTerm(E(1), o.bupaF, i, o.bupc, i + 1, o.f); h.AddTerm(E(-1), o.bdnc, i, o.Fbdna, i + 1, o.f); h.AddTerm(E(1), o.bdna, i, o.Fbdnc, i + 1, o.f); } }, {{a}});
}
template<typename E, typename Q>
Sys<E, Q> Mixed(const std::string &nm) {
  Index<Q> a = sites::SpinOneHalfSite<Q>().phys_bond_out, b({QNSector<Q>(Q(2), 1), QNSector<Q>(Q(0), 1), QNSector<Q>(Q(-2), 1)}, OUT);
  SiteVec<E, Q> sv(IndexVec<Q>{a, b, b, a}); SpinOneHalfOperators<E, Q> o; QLTensor<E, Q> d({InverseIndex(b), b}), up({InverseIndex(b), b}), dn({InverseIndex(b), b});
  d({0, 0}) = 1; d({2, 2}) = -1; double r2 = std::sqrt(2.0); up({1, 0}) = r2; up({2, 1}) = r2; dn({0, 1}) = r2; dn({1, 2}) = r2;
  return Make<E, Q>(nm, sv, [&](auto &h) { h.AddTerm(E(1), o.sz, 0, d, 1); h.AddTerm(E(0.5), o.sp, 0, dn, 1); h.AddTerm(E(0.5), o.sm, 0, up, 1); h.AddTerm(E(1), d, 1, d, 2); h.AddTerm(E(0.5), up, 1, dn, 2); h.AddTerm(E(0.5), dn, 1, up, 2);
    h.AddTerm(E(1), d, 2, o.sz, 3); h.AddTerm(E(0.5), up, 2, o.sm, 3); h.AddTerm(E(0.5), dn, 2, o.sp, 3); }, {{{0, 1, 1, 1}}, {{0, 2, 0, 1}}});
}
// XXZ chains with every choice of couplings from a small set
template<typename E, typename Q>
Sys<E, Q> Xxz(const std::string &nm, size_t n, size_t code) {
  static const double kJ[] = {1, -0.7, 0.4};
  auto g = Heis<E, Q>(nm, n, false); SpinOneHalfOperators<E, Q> o; double jz[16], jx[16]; for (size_t i = 0; i + 1 < n; ++i) { jz[i] = kJ[code % 3]; code /= 3; jx[i] = kJ[code % 3]; code /= 3; }
  return Make<E, Q>(nm, g.sv, [&](auto &h) { for (size_t i = 0; i + 1 < n; ++i) { h.AddTerm(E(jz[i]), o.sz, i, o.sz, i + 1); h.AddTerm(E(0.5 * jx[i]), o.sp, i, o.sm, i + 1); h.AddTerm(E(0.5 * jx[i]), o.sm, i, o.sp, i + 1); } }, {g.starts[0], g.starts[2]});
}
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx(); Scratch scratch;
  auto all = [&](const std::string &only) {
    bool th = c.thorough(); std::vector<Run> runs; size_t d = th ? 4 : 3;
    bool san = c.mode.size() > 3 && c.mode.substr(c.mode.size() - 3) == "san"; if (san) d = 2;
    for (int a = 0; a < ALGS; ++a) {
      if ((c.mode.rfind("two", 0) == 0 && a != TWO && a != NOISE) || (c.mode.rfind("single", 0) == 0 && a != SINGLE && a != SNOISE) || (c.mode.rfind("dmrg", 0) == 0 && a != DMRG)) continue;
      runs.push_back({a, 64, 1, 1e-10, 100, {}}); runs.push_back({a, 64, 2, 1e-6, 2, {}}); runs.push_back({a, 2, 1, 1e-10, 100, {}}); runs.push_back({a, 64, 1, 1e-10, 1, {}}); runs.push_back({a, 3, 1, 1e-10, 100, {}, 2, 1e-2});
    }
    auto on = [&](auto g, size_t depth) {
      if (!only.empty() && only.compare(0, g.name.size() + 1, g.name + "/")) return;
      if (c.mode == "resume") Resume(g, only); else if (c.mode == "conv") Converge(g, only); else if (c.mode == "stop") Stop(g, only); else if (c.mode == "ref") Reference(g, only, th ? 4 : 2);
      else Histories(g, runs, depth, only);
    };
    on(Heis<double, U1QN>("h3", 3, false), d); on(Heis<double, U1QN>("h4", 4, true), d); on(Heis<QLTEN_Complex, U1QN>("h5", 5, true), d);
    on(Heis<double, U1QN>("h6", 6, false), d - 1); on(Mixed<double, U1QN>("mix"), d - 1);
#ifndef __SANITIZE_ADDRESS__
    on(Heis<QLTEN_Complex, TrivialRepQN>("t4", 4, true), d - 1); on(Hubb<double, U1U1QN>("hub3", 3), d - 1); on(Hubb<QLTEN_Complex, U1U1QN>("hub4", 4), th ? 2 : 1);
    on(Heis<double, U1QN>("h7", 7, true), d - 1); if (th) on(Heis<double, U1QN>("h8", 8, true), 2);
#endif
    if (c.mode == "conv") {
      for (size_t x = 0; x < 81; ++x) on(Xxz<double, U1QN>("x3_" + std::to_string(x), 3, x), 1);
      for (size_t x = 0; x < 729; ++x) on(Xxz<double, U1QN>("x4_" + std::to_string(x), 4, x), 1);
      if (th) for (size_t x = 0; x < 6561; ++x) on(Xxz<double, U1QN>("x5_" + std::to_string(x), 5, x), 1);
    }
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
