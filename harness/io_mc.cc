// Tensors, states, operators and operator groups on disk: every byte budget a
// write can hit, every length a file can be cut to, every missing file, and
// histories of dumps and loads over two directories.
#include "tn.h"
#include "scratch.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
#include "qlmps/algorithm/dmrg/operator_io.h"
#include <sys/resource.h>
#include <csignal>
using namespace qlmps; using namespace qlten; using tn::cd;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;

// Writes beyond this many bytes of a file fail, as on a full disk.
struct Budget {
  rlimit old; Budget(size_t n) { getrlimit(RLIMIT_FSIZE, &old); rlimit r = old; r.rlim_cur = n; setrlimit(RLIMIT_FSIZE, &r); }
  ~Budget() { setrlimit(RLIMIT_FSIZE, &old); }
};
inline std::string Slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); return std::string(std::istreambuf_iterator<char>(i), {}); }
inline void Spill(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
inline bool Throws(const std::function<void()> &f) { try { f(); return false; } catch (const std::exception &) { return true; } }
inline std::vector<std::string> Files(const std::string &d) { std::vector<std::string> r; for (auto &e : std::filesystem::directory_iterator(d)) r.push_back(e.path().string()); std::sort(r.begin(), r.end()); return r; }
inline void Fresh(const std::string &d) { std::filesystem::remove_all(d); }
template<typename V> bool Whole(const V &v, const V &ref) {
  for (size_t i = 0; i < ref.size(); ++i) if (v(i) == nullptr || v[i].IsDefault() || !(v[i] == ref[i])) return false;
  return true;
}

template<typename E, typename Q>
struct Fix {
  std::string name; FiniteMPS<E, Q> mps, other; FiniteMPO<E, Q> mpo; std::vector<QLTensor<E, Q>> grp;
  Fix(const std::string &nm, const SiteVec<E, Q> &sv, const std::vector<std::vector<size_t>> &st, const MPO<QLTensor<E, Q>> &h)
      : name(nm), mps(sv), other(sv), mpo(h) {
    ExtendDirectRandomInitMps(mps, st, 1); ExtendDirectRandomInitMps(other, {st[0]}, 1);
    for (size_t i = 0; i < 2; ++i) grp.push_back(std::as_const(mps)[i]);
  }
};
#define CASE(sub) std::string id = f.name + "/" + (sub); if (only.empty() ? !c.mine() : only != id) continue; tn::Case(id, [&] {
#define END c.states++; c.transitions++; c.traces_validated++; c.note_distinct(mc::hash_str(id)); });

template<typename E, typename Q>
void Faults(const Fix<E, Q> &f, const std::string &only) {
  auto &c = mc::ctx(); using M = FiniteMPS<E, Q>; using O = FiniteMPO<E, Q>; using T = QLTensor<E, Q>;
  size_t n = f.mps.size();
  // one tensor, every budget and every length
  auto tensor = [&](const std::string &tag, auto &ref, size_t i) {
    using V = std::decay_t<decltype(ref)>;
    { V v(ref); v.DumpTen(i, "len"); }
    std::string whole = Slurp("len"); size_t L = whole.size();
    for (size_t k = 0; k <= L; ++k) {
      for (int kind = 0; kind < 3; ++kind) {
        CASE(tag + std::to_string(i) + ".w" + std::to_string(k) + "." + std::to_string(kind))
          Fresh("ten"); if (k % 3 == 1) Spill("ten", std::string(L + 5, 'x'));       // over an older, longer file
          V v(ref); const V &cv = v; bool t;
          { Budget b(k); t = Throws([&] { kind == 0 ? cv.DumpTen(i, "ten") : v.DumpTen(i, "ten", kind == 2); }); }
          if (k < L && !t) c.violate("lost-write", id, "a dump that ran out of space after " + std::to_string(k) + " of " + std::to_string(L) + " bytes reported success");
          if (k == L && t) c.violate("refused-write", id, "a complete dump failed");
          if (k == L && Slurp("ten") != whole) c.violate("file-content", id, "");
          if ((k < L || kind < 2) && !Whole(v, ref)) c.violate("lost-tensor", id, "the tensor that could not be written is gone from memory");
          if (k == L && kind == 2 && cv(i) != nullptr) c.violate("not-released", id, "");
          c.outcome(k < L ? "failing write" : "write");
        END
      }
      do { CASE(tag + std::to_string(i) + ".r" + std::to_string(k))
        Spill("ten", whole.substr(0, k)); V v(ref); const V &cv = v; v.dealloc(i);
        bool t = Throws([&] { v.LoadTen(i, "ten"); });
        if (k < L && !t) c.violate("short-read", id, "a file cut to " + std::to_string(k) + " of " + std::to_string(L) + " bytes was loaded without an error");
        if (k == L && (t || !(cv[i] == ref[i]))) c.violate("read", id, t ? "a complete file was refused" : "another tensor was loaded");
        T x; Spill("ten", whole.substr(0, k));
        bool ok = false; if (Throws([&] { ok = ReadQLTensorFromFile(x, "ten"); })) ok = false;
        if (ok != (k == L)) c.violate("read-result", id, ok ? "a cut file counts as read" : "a complete file counts as unreadable");
        if (ok && !(x == ref[i])) c.violate("read", id, "another tensor was read");
        c.outcome(k < L ? "cut file" : "read");
      END } while (0);
      do { CASE(tag + std::to_string(i) + ".q" + std::to_string(k))
        Fresh("ten"); bool t; { Budget b(k); t = Throws([&] { WriteQLTensorTOFile(ref[i], "ten"); }); }
        if (t != (k < L)) c.violate("lost-write", id, "environment tensor");
        if (k == L && Slurp("ten") != whole) c.violate("file-content", id, "");
        c.outcome(k < L ? "failing write" : "write");
      END } while (0);
    }
  };
  for (size_t i = 0; i < n; ++i) { tensor("s", f.mps, i); tensor("o", f.mpo, i); }
  // whole states and operators: every budget; what is not on disk is still in memory
  auto whole = [&](const std::string &tag, auto &ref) {
    using V = std::decay_t<decltype(ref)>;
    { Fresh("all"); V v(ref); v.Dump("all"); }
    auto names = Files("all"); std::vector<size_t> len; size_t top = 0;
    for (auto &x : names) { len.push_back(std::filesystem::file_size(x)); top = std::max(top, len.back()); }
    for (size_t k = 0; k <= top; ++k) for (int rel = 0; rel < 2; ++rel) {
      CASE(tag + ".d" + std::to_string(k) + "." + std::to_string(rel))
        Fresh("dir"); V v(ref); bool t;
        bool fits = k >= top;
        if constexpr (std::is_same_v<V, M>) { Budget b(k); t = Throws([&] { if (rel) v.Dump("dir", true); else std::as_const(v).Dump("dir"); }); }
        else { Budget b(k); t = Throws([&] { v.Dump("dir"); }); }
        if (t == fits) c.violate(fits ? "refused-write" : "lost-write", id, "dump of the whole chain");
        const V &cv = v;
        for (size_t i = 0; i < n; ++i) if (cv(i) == nullptr) {
          V w(ref); w.dealloc(i); std::string file = names[0].substr(0, 0);
          for (auto &x : names) { auto b = std::filesystem::path(x).filename().string(); if (b.find("ten" + std::to_string(i) + ".") != std::string::npos) file = "dir/" + b; }
          if (file.empty() || Throws([&] { w.LoadTen(i, file); }) || !(std::as_const(w)[i] == ref[i])) c.violate("lost-tensor", id, "tensor " + std::to_string(i) + " is neither in memory nor on disk");
        } else if (!(cv[i] == ref[i])) c.violate("lost-tensor", id, "");
        c.outcome(fits ? "dump" : "failing dump");
      END
    }
    // each file cut at every length, or missing
    for (size_t x = 0; x < names.size(); ++x) for (size_t k = 0; k <= len[x]; ++k) {
      CASE(tag + ".l" + std::to_string(x) + "." + std::to_string(k))
        Fresh("dir"); V v(ref); v.Dump("dir"); auto file = "dir/" + std::filesystem::path(names[x]).filename().string();
        bool miss = k == len[x]; if (miss) Fresh(file); else Spill(file, Slurp(file).substr(0, k));
        V w(ref); bool t = Throws([&] { w.Load("dir"); });
        bool aux = file.find("center") != std::string::npos;
        if (!t && !aux) c.violate("short-read", id, miss ? "a missing file went unnoticed" : "a cut file went unnoticed");
        if (aux && !t) {                       // only the record may be lost, never wrong
          if (!Whole(w, ref)) c.violate("read", id, "");
          if (w.GetCenter() != ref.GetCenter() && w.GetCenter() != -1) c.violate("record", id, "center " + std::to_string(w.GetCenter()) + " after a damaged record");
        }
        c.outcome(miss ? "missing file" : "cut file");
      END
    }
    for (int kind = 0; kind < 1; ++kind) {
      CASE(tag + ".nodir")
        Fresh("nodir"); V w(ref);
        if constexpr (std::is_same_v<V, O>) { if (w.Load("nodir")) c.violate("missing-directory", id, ""); }
        else if (!Throws([&] { w.Load("nodir"); })) c.violate("missing-directory", id, "");
        if (!Throws([&] { w.LoadTen(0, "nodir/x"); }) || !Throws([&] { std::as_const(w).DumpTen(0, "nodir/x"); })) c.violate("missing-directory", id, "one tensor");
        V r(ref); Throws([&] { r.DumpTen(0, "nodir/x", true); }); if (!Whole(r, ref)) c.violate("lost-tensor", id, "no directory");
        c.outcome("missing directory");
      END
    }
  };
  whole("S", f.mps); whole("O", f.mpo);
  { O o(f.mpo); o.Centralize(1); whole("Oc", o); }
  { M m(f.mps); m.Centralize(int(n) - 1); whole("Sc", m); }
  // groups of block operators
  Fresh("grp"); mkdir("grp", 0755); { auto g = f.grp; WriteOperatorGroup("l", 1, g, "grp"); }
  auto gf = Files("grp"); std::vector<std::string> gd; size_t top = 0; for (auto &x : gf) { gd.push_back(Slurp(x)); top = std::max(top, gd.back().size()); }
  for (size_t k = 0; k <= top; ++k) {
    CASE("g.w" + std::to_string(k))
      Fresh("g2"); mkdir("g2", 0755); auto g = f.grp; bool t; { Budget b(k); t = Throws([&] { WriteOperatorGroup("l", 1, g, "g2"); }); }
      if (t != (k < top)) c.violate("lost-write", id, "operator group");
      c.outcome(k < top ? "failing write" : "write");
    END
  }
  for (size_t x = 0; x < gf.size(); ++x) for (size_t k = 0; k <= gd[x].size() + 1; ++k) for (int rm = 0; rm < 2; ++rm) {
    CASE("g.r" + std::to_string(x) + "." + std::to_string(k) + "." + std::to_string(rm))
      Fresh("g2"); mkdir("g2", 0755); auto w = f.grp; WriteOperatorGroup("l", 1, w, "g2"); auto fs = Files("g2");
      bool miss = k > gd[x].size(); if (miss) Fresh(fs[x]); else Spill(fs[x], gd[x].substr(0, k));
      std::vector<T> g(f.grp.size()); bool ok = false;
      if (Throws([&] { ok = rm ? ReadAndRemoveOperatorGroup("l", 1, g, "g2") : ReadOperatorGroup("l", 1, g, "g2"); })) ok = false;
      if (ok != (k == gd[x].size())) c.violate("read-result", id, "operator group");
      if (ok) for (size_t i = 0; i < g.size(); ++i) if (!(g[i] == f.grp[i])) c.violate("read", id, "operator group");
      if (ok && rm && !Files("g2").empty()) c.violate("not-removed", id, "");
      if (!rm && Files("g2").size() != gf.size() - miss) c.violate("removed", id, "");
      c.outcome(miss ? "missing file" : k < gd[x].size() ? "cut file" : "read");
    END
  }
  c.info[f.name] = "write budgets and file lengths 0.." + std::to_string(top) + " bytes and more";
}

// Histories over two states, two operators and two directories.
template<typename E, typename Q>
void Hist(const Fix<E, Q> &f, size_t depth, const std::string &only) {
  auto &c = mc::ctx(); using M = FiniteMPS<E, Q>; using O = FiniteMPO<E, Q>;
  struct W { M a; O o; int ta = 0, to = 0; bool ca = true; int da[2] = {-1, -1}, dd[2] = {-1, -1}; };   // tags of the contents
  M ms[3] = {f.mps, f.other, f.mps}; { M m(f.mps); m.Centralize(1); ms[2] = m; }
  O os[3] = {f.mpo, f.mpo, f.mpo}; { O o(f.mpo); o.Centralize(0); os[1] = o; o.Centralize(int(o.size()) - 1); os[2] = o; }
  const size_t ops = 6 + 8;
  auto dir = [](int d) { return d ? std::string("two") : std::string("one"); };
  auto run = [&](const std::vector<size_t> &h, const std::string &id) {
    Fresh("one"); Fresh("two"); W w{ms[0], os[0]};
    for (size_t s = 0; s < h.size(); ++s) {
      size_t k = h[s]; int d;
      if (k < 3) { w.a = ms[k]; w.ta = int(k); }
      else if (k < 6) { w.o = os[k - 3]; w.to = int(k - 3); }
      else {
        d = int(k & 1);
        switch ((k - 6) / 2) {
          case 0: if (w.ta < 0) return false; std::as_const(w.a).Dump(dir(d)); w.da[d] = w.ta; break;
          case 1: if (w.ta < 0) return false; w.a.Dump(dir(d), true); w.da[d] = w.ta; w.ta = -1; break;
          case 2: if (w.da[d] < 0) return false; w.a.Load(dir(d)); w.ta = w.da[d]; break;
          case 3: if (w.dd[d] < 0) { w.o.Dump(dir(d)); w.dd[d] = w.to; } else { if (!w.o.Load(dir(d))) c.violate("read-result", id, "operator"); w.to = w.dd[d]; } break;
        }
      }
      c.transitions++;
      const M &a = w.a; const O &o = w.o;
      if (w.ta >= 0) { if (!Whole(a, ms[w.ta])) c.violate("history", id, "state differs after step " + std::to_string(s)); }
      else for (size_t i = 0; i < a.size(); ++i) if (a(i) != nullptr) c.violate("not-released", id, "");
      if (!Whole(o, os[w.to])) c.violate("history", id, "operator differs after step " + std::to_string(s));
      if (o.GetCenter() != -1 && o.GetCenter() != os[w.to].GetCenter()) c.violate("record", id, "center of the operator");
      auto rec = o.GetTensCanoType(), ref = os[w.to].GetTensCanoType();
      for (size_t i = 0; i < rec.size(); ++i) if (rec[i] != MPSTenCanoType::NONE && rec[i] != ref[i]) c.violate("record", id, "canonical type of operator tensor " + std::to_string(i));
      auto ra = a.GetTensCanoType(), rr = ms[std::max(0, w.ta)].GetTensCanoType();
      if (w.ta >= 0) for (size_t i = 0; i < ra.size(); ++i) if (ra[i] != MPSTenCanoType::NONE && ra[i] != rr[i]) c.violate("record", id, "canonical type of state tensor " + std::to_string(i));
    }
    return true;
  };
  if (!only.empty()) { std::stringstream ss(only.substr(only.find("/h") + 2)); std::string x; std::vector<size_t> h; while (std::getline(ss, x, '.')) if (!x.empty()) h.push_back(std::stoul(x)); tn::Case(only, [&] { run(h, only); }); return; }
  std::vector<size_t> h;
  std::function<void()> rec = [&] {
    for (size_t k = 0; k < ops; ++k) {
      h.push_back(k);
      if (h.size() == 2 && !c.mine()) { h.pop_back(); continue; }
      std::string id = f.name + "/h"; for (auto x : h) id += std::to_string(x) + ".";
      bool on = true; if (h.size() > 1) { tn::Case(id, [&] { on = run(h, id); }); c.states++; c.traces_validated++; c.note_distinct(mc::hash_str(id)); c.outcome("history"); }
      if (on && h.size() < depth) rec();
      h.pop_back();
    }
  };
  rec();
}

template<typename E, typename Q, typename F> auto MakeMpo(const SiteVec<E, Q> &sv, F add) {
  MPOGenerator<E, Q> g(sv, Q()); add(g); return g.Gen();
}
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx(); Scratch scratch; signal(SIGXFSZ, SIG_IGN);
  auto all = [&](const std::string &only) {
    auto want = [&](const std::string &n) { return only.empty() || only.compare(0, n.size() + 1, n + "/") == 0; };
    auto go = [&](auto fix) { if (c.mode == "hist") Hist(fix, c.thorough() ? 5 : 4, only); else Faults(fix, only); };
    if (want("spin")) {
      sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<double, U1QN> o; SiteVec<double, U1QN> sv(3, s.phys_bond_out);
      go(Fix<double, U1QN>("spin", sv, {{0, 1, 0}, {1, 0, 0}}, MakeMpo(sv, [&](auto &g) { for (size_t i = 0; i < 2; ++i) { g.AddTerm(1, o.sz, i, o.sz, i + 1); g.AddTerm(0.5, o.sp, i, o.sm, i + 1); } })));
    }
    if (want("triv")) {
      sites::SpinOneHalfSite<TrivialRepQN> s; SpinOneHalfOperators<QLTEN_Complex, TrivialRepQN> o; SiteVec<QLTEN_Complex, TrivialRepQN> sv(2, s.phys_bond_out);
      go(Fix<QLTEN_Complex, TrivialRepQN>("triv", sv, {{0, 1}, {1, 0}}, MakeMpo(sv, [&](auto &g) { g.AddTerm(1, o.sz, 0, o.sz, 1); g.AddTerm(0.3, o.sz, 0); })));
    }
    if (want("hub") && c.thorough()) {
      sites::HubbardSite<U1U1QN> s; HubbardOperators<double, U1U1QN> o; SiteVec<double, U1U1QN> sv(2, s.phys_bond_out);
      go(Fix<double, U1U1QN>("hub", sv, {{1, 2}, {2, 1}}, MakeMpo(sv, [&](auto &g) { g.AddTerm(1, o.nupndn, 0); g.AddTerm(0.3, o.sz, 0, o.sz, 1); })));
    }
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
