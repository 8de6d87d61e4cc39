// Expectation values on finite matrix product states, in memory and on disk: every query
// of a bounded set, from every form of the state, alone and after another query, against
// the state vector.  Modes: memory, disk, four, memsan, disksan.
#include "tn.h"
#include "scratch.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
#include <fstream>
#include <sstream>
#include <cctype>
using namespace qlmps; using namespace qlten; using tn::Vec; using tn::cd; using tn::Mat;
using special_qn::U1QN; using special_qn::U1U1QN; using special_qn::TrivialRepQN;
namespace fs = std::filesystem;

template<typename E, typename Q>
struct Sys {
  std::string name; SiteVec<E, Q> sv; std::vector<std::vector<std::vector<size_t>>> starts;
  std::vector<std::vector<QLTensor<E, Q>>> pool;       // per site kind
  std::vector<size_t> kind;                            // of each site
  std::vector<size_t> dims() const { std::vector<size_t> d; for (auto &s : sv.sites) d.push_back(s.dim()); return d; }
  const QLTensor<E, Q> &op(size_t site, size_t k) const { auto &p = pool[kind[site]]; return p[k % p.size()]; }
};
static const char *kDir = "state";
template<typename E, typename Q>
FiniteMPS<E, Q> Start(const Sys<E, Q> &g, size_t which, double scale) {
  FiniteMPS<E, Q> m(g.sv); qlten::shim::Rng() = which * 7919 + 31;
  if (g.starts[which].size() == 1) DirectStateInitMps(m, g.starts[which][0]); else ExtendDirectRandomInitMps(m, g.starts[which], 2);
  if (scale != 1) m[m.GetCenter() < 0 ? 0 : size_t(m.GetCenter())] *= E(scale);
  return m;
}
using Put = std::vector<std::pair<size_t, Mat>>;
struct Want { std::vector<size_t> sites; cd avg; };
// <v| product of local operators |v>
inline cd Expect(const Vec &v, const std::vector<size_t> &dims, const Put &ops) {
  Vec w = v;
  for (auto &o : ops) {
    size_t d = dims[o.first], right = 1; for (size_t i = o.first + 1; i < dims.size(); ++i) right *= dims[i];
    Vec x(w.size());
    for (size_t s = 0; s < w.size(); ++s) { if (w[s] == cd(0)) continue; size_t a = s / right % d; for (size_t b = 0; b < d; ++b) x[s - a * right + b * right] += o.second(b, a) * w[s]; }
    w.swap(x);
  }
  return tn::Dot(v, w);
}
// the dumped file: [ [[sites], avg], ... ]
template<typename E>
bool ReadJson(const std::string &f, std::vector<Want> &out) {
  std::ifstream in(f + ".json"); if (!in) return false;
  std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str(), t; for (char ch : s) if (!isspace((unsigned char)ch)) t += ch;
  size_t p = 0; auto eat = [&](char ch) { if (p < t.size() && t[p] == ch) { ++p; return true; } return false; };
  auto num = [&](double &x) { char *e; x = strtod(t.c_str() + p, &e); if (e == t.c_str() + p) return false; p = e - t.c_str(); return true; };
  if (!eat('[')) return false;
  if (eat(']')) return p == t.size();
  do {
    Want w; double x, y = 0;
    if (!eat('[') || !eat('[')) return false;
    do { if (!num(x)) return false; w.sites.push_back(size_t(x)); } while (eat(','));
    if (!eat(']') || !eat(',')) return false;
    if (std::is_same_v<E, double>) { if (!num(x)) return false; } else if (!eat('[') || !num(x) || !eat(',') || !num(y) || !eat(']')) return false;
    w.avg = cd(x, y); if (!eat(']')) return false;
    out.push_back(w);
  } while (eat(','));
  return eat(']') && p == t.size();
}
template<typename E>
void Judge(const std::string &id, const std::string &what, const MeasuRes<E> &got, const std::vector<Want> &want, const char *file, double scale) {
  auto &c = mc::ctx(); c.traces_validated++;
  if (got.size() != want.size()) { c.violate("number-of-results", id, what + ": " + std::to_string(got.size()) + " instead of " + std::to_string(want.size())); return; }
  for (size_t i = 0; i < want.size(); ++i) {
    if (got[i].sites != want[i].sites) c.violate("sites", id, what + " result " + std::to_string(i));
    if (!(std::abs(cd(got[i].avg) - want[i].avg) < 1e-9 * scale)) c.violate("average", id, what + " result " + std::to_string(i) + ": " + tn::Num(cd(got[i].avg)) + " instead of " + tn::Num(want[i].avg));
  }
  if (!file) return;
  std::vector<Want> f;
  if (!ReadJson<E>(file, f)) { c.violate("file", id, what + ": not a list of results"); return; }
  if (f.size() != want.size()) { c.violate("file", id, what + ": " + std::to_string(f.size()) + " results"); return; }
  for (size_t i = 0; i < f.size(); ++i) if (f[i].sites != want[i].sites || !(std::abs(f[i].avg - cd(got[i].avg)) < 1e-9 * scale)) c.violate("file", id, what + " result " + std::to_string(i) + " is " + tn::Num(f[i].avg));
  fs::remove(std::string(file) + ".json");
}
template<typename E, typename Q>
struct Query { std::string name; std::function<void(FiniteMPS<E, Q> &, const Vec &, const std::string &, double)> run; };
inline std::string Nm(const char *s, std::vector<size_t> v) { std::string o = s; o += "("; for (size_t i = 0; i < v.size(); ++i) o += (i ? "," : "") + std::to_string(v[i]); return o + ")"; }

template<typename E, typename Q>
std::vector<Query<E, Q>> Memory(const Sys<E, Q> &g) {
  using M = FiniteMPS<E, Q>; using T = QLTensor<E, Q>; auto dims = g.dims(); size_t n = dims.size(); auto *gp = &g;
  std::vector<Query<E, Q>> qs; bool uniform = g.pool.size() == 1; size_t P = g.pool[0].size();
  auto om = [gp](size_t s, size_t k) { return tn::OpMat(gp->op(s, k)); };
  if (uniform) {
    for (size_t k = 0; k < P; ++k) qs.push_back({Nm("one", {k}), [=](M &m, const Vec &v, const std::string &id, double sc) {
      std::vector<Want> w; for (size_t s = 0; s < n; ++s) w.push_back({{s}, Expect(v, dims, {{s, om(s, k)}})});
      Judge<E>(id, "one", MeasureOneSiteOp(m, gp->op(0, k), "out"), w, "out", sc); }});
    for (size_t k = 0; k < P; ++k) qs.push_back({Nm("list", {k}), [=](M &m, const Vec &v, const std::string &id, double sc) {
      std::vector<T> ops; std::vector<std::string> f; for (size_t j = 0; j < P; ++j) { ops.push_back(gp->op(0, (j + k) % P)); f.push_back("out" + std::to_string(j)); }
      auto r = MeasureOneSiteOp(m, ops, f); if (r.size() != P) { mc::ctx().violate("number-of-lists", id, ""); return; }
      for (size_t j = 0; j < P; ++j) { std::vector<Want> w; for (size_t s = 0; s < n; ++s) w.push_back({{s}, Expect(v, dims, {{s, om(s, (j + k) % P)}})}); Judge<E>(id, "list", r[j], w, f[j].c_str(), sc); } }});
    // one insertion operator for all events; events in ascending, descending and interleaved order
    for (size_t a = 0; a < P; ++a) for (size_t b = 0; b < P; ++b) for (size_t i = 0; i < P; ++i) for (size_t ord = 0; ord < 3; ++ord)
      qs.push_back({Nm("two", {a, b, i, ord}), [=](M &m, const Vec &v, const std::string &id, double sc) {
        std::vector<std::vector<size_t>> ev; for (size_t x = 0; x < n; ++x) for (size_t y = x + 1; y < n; ++y) ev.push_back({x, y});
        if (ord == 1) std::reverse(ev.begin(), ev.end());
        if (ord == 2) for (size_t k = 0; k + 1 < ev.size(); k += 2) std::swap(ev[k], ev[ev.size() - 1 - k / 2]);
        std::vector<Want> w; for (auto &e : ev) { Put p{{e[0], om(e[0], a)}, {e[1], om(e[1], b)}}; for (size_t s = e[0] + 1; s < e[1]; ++s) p.push_back({s, om(s, i)}); w.push_back({e, Expect(v, dims, p)}); }
        Judge<E>(id, "two", MeasureTwoSiteOp(m, std::vector<T>{gp->op(0, a), gp->op(0, b)}, gp->op(0, i), ev, "out"), w, "out", sc); }});
    // individual insertion operators
    for (size_t a = 0; a < P; ++a) for (size_t b = 0; b < P; ++b) for (size_t sh = 0; sh < P; ++sh)
      qs.push_back({Nm("twoi", {a, b, sh}), [=](M &m, const Vec &v, const std::string &id, double sc) {
        std::vector<std::vector<size_t>> ev; std::vector<std::vector<T>> in; std::vector<Want> w;
        for (size_t y = n; y-- > 0;) for (size_t x = 0; x < y; ++x) {
          ev.push_back({x, y}); in.push_back({}); Put p{{x, om(x, a)}, {y, om(y, b)}};
          for (size_t s = x + 1; s < y; ++s) { in.back().push_back(gp->op(s, s + x + sh)); p.push_back({s, om(s, s + x + sh)}); }
          w.push_back({ev.back(), Expect(v, dims, p)});
        }
        Judge<E>(id, "twoi", MeasureTwoSiteOp(m, std::vector<T>{gp->op(0, a), gp->op(0, b)}, in, ev, "out"), w, "out", sc); }});
  }
  // physical operators on every choice of sites; form 0: insertions per site, 1: also a tail string, 2: one insertion operator per gap
  for (size_t sh = 0; sh < P; ++sh) for (size_t form = 0; form < (uniform ? 3u : 2u); ++form)
    qs.push_back({Nm("multi", {sh, form}), [=](M &m, const Vec &v, const std::string &id, double sc) {
      std::vector<std::vector<size_t>> ev; TenVV<E, Q> ph, gap; TenVVV<E, Q> per; std::vector<Want> w; size_t e = 0;
      for (size_t x = 0; x < (size_t(1) << n); ++x) {
        if (__builtin_popcountll(x) < 2) continue;
        std::vector<size_t> s; for (size_t i = 0; i < n; ++i) if (x >> i & 1) s.push_back(i);
        size_t tail = form == 1 ? (x % (n - s.back())) : 0; Put p; ph.push_back({}); gap.push_back({}); per.push_back({}); ++e;
        for (size_t k = 0; k < s.size(); ++k) {
          ph.back().push_back(gp->op(s[k], k + sh + e)); p.push_back({s[k], om(s[k], k + sh + e)});
          if (k + 1 == s.size()) continue;
          gap.back().push_back(gp->op(s[k], k + 2 * sh)); per.back().push_back({});
          for (size_t i = s[k] + 1; i < s[k + 1]; ++i) { size_t o = form == 2 ? k + 2 * sh : i + sh + e; per.back().back().push_back(gp->op(i, o)); p.push_back({i, om(i, o)}); }
        }
        if (tail) { per.back().push_back({}); for (size_t i = s.back() + 1; i <= s.back() + tail; ++i) { per.back().back().push_back(gp->op(i, i + e)); p.push_back({i, om(i, i + e)}); } }
        ev.push_back(s); w.push_back({s, Expect(v, dims, p)});
      }
      Judge<E>(id, "multi", form == 2 ? MeasureMultiSiteOp(m, ph, gap, ev, "out") : MeasureMultiSiteOp(m, ph, per, ev, "out"), w, "out", sc); }});
  return qs;
}
// ways to bring a state into memory: center anywhere, or (partly) no record of a center
template<typename E, typename Q>
FiniteMPS<E, Q> Form(const Sys<E, Q> &g, size_t st, size_t form, double scale) {
  auto m = Start(g, st, scale); size_t n = m.size();
  if (form < n) m.Centralize(form); else if (form == n) { m.Centralize(n - 1); m.Centralize(n / 2); m[0]; } else { for (size_t i = 0; i < n; ++i) m[i]; }
  return m;
}
template<typename E, typename Q>
void RunMemory(const Sys<E, Q> &g, size_t depth, const std::string &only) {
  auto &c = mc::ctx(); auto qs = Memory(g); size_t n = g.sv.size;
  for (size_t st = 0; st < g.starts.size(); ++st) for (size_t form = 0; form < n + 2; ++form) for (double scale : {1.0, 1.5}) {
    std::vector<size_t> h;
    std::function<void()> rec = [&] {
      for (size_t q = 0; q < qs.size(); ++q) {
        h.push_back(q); std::string id = g.name + "/" + std::to_string(st) + "." + std::to_string(form) + (scale != 1 ? "s" : ""); for (auto x : h) id += "." + std::to_string(x);
        if (only.empty() ? c.mine() : only == id) tn::Case(id, [&] {
          auto m = Form(g, st, form, scale); Vec v = tn::DenseMps(std::as_const(m));
          for (auto x : h) { qs[x].run(m, v, id, 8); c.transitions++; }
          if (!(tn::Diff(tn::DenseMps(std::as_const(m)), v) < 1e-10)) c.violate("state-changed", id, qs[h.back()].name);
          c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(qs[h.back()].name.substr(0, qs[h.back()].name.find('('))); if (c.states % 4999 == 7) c.sample(id + " " + qs[h.back()].name);
        });
        if (h.size() < depth) rec();
        h.pop_back();
      }
    };
    rec();
  }
  c.info[g.name] = std::to_string(qs.size()) + " queries, depth " + std::to_string(depth);
}
// ---- on disk
inline std::string Bytes() {
  std::string s; std::vector<fs::path> f; for (auto &x : fs::directory_iterator(kDir)) f.push_back(x.path());
  std::sort(f.begin(), f.end());
  for (auto &x : f) { std::ifstream in(x, std::ios::binary); std::stringstream b; b << in.rdbuf(); s += x.filename().string() + "=" + b.str() + ";"; }
  return s;
}
template<typename E, typename Q>
std::vector<Query<E, Q>> Disk(const Sys<E, Q> &g) {
  using M = FiniteMPS<E, Q>; using T = QLTensor<E, Q>; auto dims = g.dims(); size_t n = dims.size(); auto *gp = &g; size_t P = g.pool[0].size();
  std::vector<Query<E, Q>> qs; const std::string dir = kDir; auto om = [gp](size_t s, size_t k) { return tn::OpMat(gp->op(s, k)); };
  for (size_t k = 0; k < P; ++k) qs.push_back({Nm("one", {k}), [=](M &m, const Vec &v, const std::string &id, double sc) {
    std::vector<Want> w; for (size_t s = 0; s < n; ++s) w.push_back({{s}, Expect(v, dims, {{s, om(s, k)}})});
    Judge<E>(id, "one", MeasureOneSiteOp(m, dir, gp->op(0, k), std::string("out")), w, "out", sc); }});
  // every subset of sites; the last is the overload for all sites
  for (size_t x = 1; x <= (size_t(1) << n); ++x) qs.push_back({Nm("list", {x}), [=](M &m, const Vec &v, const std::string &id, double sc) {
    std::vector<T> ops; std::vector<std::string> f; for (size_t j = 0; j < P; ++j) { ops.push_back(gp->op(0, (j + x) % P)); f.push_back("out" + std::to_string(j)); }
    std::vector<size_t> s; for (size_t i = 0; i < n; ++i) if (x >> n || x >> i & 1) s.push_back(i);
    auto r = x >> n ? MeasureOneSiteOp(m, dir, ops, f) : MeasureOneSiteOp(m, dir, ops, s, f); if (r.size() != P) { mc::ctx().violate("number-of-lists", id, ""); return; }
    for (size_t j = 0; j < P; ++j) { std::vector<Want> w; for (auto y : s) w.push_back({{y}, Expect(v, dims, {{y, om(y, (j + x) % P)}})}); Judge<E>(id, "list", r[j], w, f[j].c_str(), sc); } }});
  for (size_t a = 0; a < P; ++a) for (size_t b = 0; b < P; ++b) for (size_t i = 0; i <= P; ++i) for (size_t r = 0; r + 1 < n; ++r) for (size_t form = 0; form < 3; ++form) {
    if (form == 0 && a + b + i > 3 && (a * 7 + b * 3 + i + r) % 3) continue;      // subsets of target sites: for a third of the operators
    qs.push_back({Nm("group", {a, b, i, r, form}), [=](M &m, const Vec &v, const std::string &id, double sc) {
      auto want = [&](const std::vector<size_t> &ts) {
        std::vector<Want> w; for (auto y : ts) { Put p{{r, om(r, a)}, {y, om(y, b)}}; if (i < P) for (size_t s = r + 1; s < y; ++s) p.push_back({s, om(s, i)}); w.push_back({{r, y}, Expect(v, dims, p)}); }
        return w; };
      std::vector<size_t> all; for (size_t s = r + 1; s < n; ++s) all.push_back(s);
      T ins = i < P ? gp->op(0, i) : T();
      if (form == 1) { auto x = i < P ? MeasureTwoSiteOpGroup(m, dir, gp->op(0, a), gp->op(0, b), r, ins) : MeasureTwoSiteOpGroup(m, dir, gp->op(0, a), gp->op(0, b), r); Judge<E>(id, "group", x, want(all), nullptr, sc); }
      else if (form == 2) Judge<E>(id, "group", MeasureTwoSiteOpGroup(m, dir, gp->op(0, a), gp->op(0, b), r, ins, std::string("out")), want(all), "out", sc);
      else for (size_t x = 0; x < (size_t(1) << all.size()); ++x) {
        std::vector<size_t> ts; for (size_t k = 0; k < all.size(); ++k) if (x >> k & 1) ts.push_back(all[k]);
        Judge<E>(id, "group", MeasureTwoSiteOpGroup(m, dir, gp->op(0, a), gp->op(0, b), r, ts, ins), want(ts), nullptr, sc);
        if (!m.empty()) { mc::ctx().violate("mps-not-released", id, "group"); return; }
      } }});
  }
  return qs;
}
template<typename E, typename Q>
void RunDisk(const Sys<E, Q> &g, std::vector<Query<E, Q>> qs, size_t depth, const std::string &only) {
  auto &c = mc::ctx();
  for (size_t st = 0; st < g.starts.size(); ++st) {
    std::vector<size_t> h; std::string bytes; Vec v;
    auto prepare = [&] { fs::remove_all(kDir); auto x = Start(g, st, 1); x.Centralize(0); v = tn::DenseMps(std::as_const(x)); x.Dump(kDir, true); bytes = Bytes(); };
    prepare();
    std::function<void()> rec = [&] {
      for (size_t q = 0; q < qs.size(); ++q) {
        h.push_back(q); std::string id = g.name + "/" + std::to_string(st); for (auto x : h) id += "." + std::to_string(x);
        if (only.empty() ? c.mine() : only == id) tn::Case(id, [&] {
          FiniteMPS<E, Q> m(g.sv);
          for (auto x : h) { qs[x].run(m, v, id, 8); c.transitions++; if (!m.empty()) { c.violate("mps-not-released", id, qs[x].name); break; } }
          if (Bytes() != bytes) { c.violate("files-changed", id, qs[h.back()].name); prepare(); }
          c.states++; c.note_distinct(mc::hash_str(id)); c.outcome(qs[h.back()].name.substr(0, qs[h.back()].name.find('('))); if (c.states % 1999 == 7) c.sample(id + " " + qs[h.back()].name);
        });
        if (h.size() < depth) rec();
        h.pop_back();
      }
    };
    rec();
  }
  c.info[g.name] = std::to_string(qs.size()) + " queries, depth " + std::to_string(depth);
}
// four-site groups: every pair of reference sites, every list of up to `most` target pairs
template<typename E, typename Q>
std::vector<Query<E, Q>> Four(const Sys<E, Q> &g, size_t most) {
  using M = FiniteMPS<E, Q>; using T = QLTensor<E, Q>; auto dims = g.dims(); size_t n = dims.size(); auto *gp = &g; size_t P = g.pool[0].size();
  std::vector<Query<E, Q>> qs; const std::string dir = kDir; auto om = [gp](size_t s, size_t k) { return tn::OpMat(gp->op(s, k)); };
  for (size_t r0 = 0; r0 < n; ++r0) for (size_t r1 = r0 + 1; r1 + 2 < n; ++r1) {
    std::vector<std::array<size_t, 2>> pairs; for (size_t a = r1 + 1; a < n; ++a) for (size_t b = a + 1; b < n; ++b) pairs.push_back({a, b});
    std::vector<std::vector<std::array<size_t, 2>>> lists{{}}; size_t from = 0;
    for (size_t l = 0; l < most; ++l) { size_t to = lists.size(); for (; from < to; ++from) for (auto &p : pairs) { auto x = lists[from]; x.push_back(p); lists.push_back(x); } }
    for (size_t li = 1; li < lists.size(); ++li) {
      auto l = lists[li]; size_t ops = li % P, ins = li % (P + 1);
      qs.push_back({Nm("four", {r0, r1, li}), [=](M &m, const Vec &v, const std::string &id, double sc) {
        T in = ins < P ? gp->op(0, ins) : T(); std::array<T, 4> ph; std::array<Mat, 4> pm;
        for (size_t k = 0; k < 4; ++k) { ph[k] = gp->op(0, ops + k * (1 + li % 2)); pm[k] = om(0, ops + k * (1 + li % 2)); }
        auto r = MeasureFourSiteOpGroup(m, dir, ph, {r0, r1}, l, in);
        std::vector<std::vector<size_t>> a, b; for (auto &t : l) a.push_back({r0, r1, t[0], t[1]});
        for (auto &x : r) b.push_back(x.sites);
        std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        if (a != b) { mc::ctx().violate("sites", id, "results for other sites than asked"); return; }
        for (auto &x : r) {
          Put p; for (size_t k = 0; k < 4; ++k) p.push_back({x.sites[k], pm[k]});
          if (ins < P) { for (size_t s = r0 + 1; s < r1; ++s) p.push_back({s, om(s, ins)}); for (size_t s = x.sites[2] + 1; s < x.sites[3]; ++s) p.push_back({s, om(s, ins)}); }
          Judge<E>(id, "four", MeasuRes<E>{x}, {{x.sites, Expect(v, dims, p)}}, nullptr, sc);
        } }});
    }
  }
  return qs;
}

inline std::vector<std::vector<size_t>> HalfFilled(size_t n) { std::vector<std::vector<size_t>> all; for (size_t x = 0; x < (size_t(1) << n); ++x) if (size_t(__builtin_popcountll(x)) == n / 2) { std::vector<size_t> v(n); for (size_t i = 0; i < n; ++i) v[i] = x >> i & 1; all.push_back(v); } return all; }
template<typename E, typename Q>
Sys<E, Q> Spin(const std::string &nm, size_t n) {
  sites::SpinOneHalfSite<Q> s; SpinOneHalfOperators<E, Q> o; auto all = HalfFilled(n);
  std::vector<QLTensor<E, Q>> p{o.sz, o.sp, o.sm, SiteVec<E, Q>(1, s.phys_bond_out).id_ops[0]};
  if constexpr (std::is_same_v<E, QLTEN_Complex>) { auto y = o.sp; y *= E(0.2, 0.7); p.push_back(y); }
  return Sys<E, Q>{nm, SiteVec<E, Q>(n, s.phys_bond_out), {{all[0]}, all}, {p}, std::vector<size_t>(n, 0)};
}
template<typename E, typename Q>
Sys<E, Q> Hubb(const std::string &nm, size_t n) {
  sites::HubbardSite<Q> s; HubbardOperators<E, Q> o(s); std::vector<size_t> a(n), d, b; for (size_t i = 0; i < n; ++i) a[i] = i % 2 ? 2 : 1;
  d = a; d[0] = 0; d[1] = 3; b = a; std::swap(b[0], b[1]);
  return Sys<E, Q>{nm, SiteVec<E, Q>(n, s.phys_bond_out), {{d}, {a, d, b}}, {{o.bupcF, o.bupa, o.f, o.nupndn, o.Fbdnc, o.bdna}}, std::vector<size_t>(n, 0)};
}
template<typename E, typename Q>
Sys<E, Q> Mixed(const std::string &nm) {
  Index<Q> a = sites::SpinOneHalfSite<Q>().phys_bond_out, b({QNSector<Q>(Q(2), 1), QNSector<Q>(Q(0), 1), QNSector<Q>(Q(-2), 1)}, OUT);
  SiteVec<E, Q> sv(IndexVec<Q>{a, b, b, a}); SpinOneHalfOperators<E, Q> o; QLTensor<E, Q> d({InverseIndex(b), b}), up({InverseIndex(b), b}), dn({InverseIndex(b), b});
  d({0, 0}) = 1; d({2, 2}) = -1; up({1, 0}) = 1.5; up({2, 1}) = 1; dn({0, 1}) = 1.5; dn({1, 2}) = 1;
  return Sys<E, Q>{nm, sv, {{{0, 1, 1, 1}}, {{0, 2, 0, 1}, {0, 1, 1, 1}, {1, 0, 2, 0}, {1, 1, 1, 0}}}, {{o.sz, o.sp, o.sm, sv.id_ops[0]}, {d, up, dn, sv.id_ops[1]}}, {0, 1, 1, 0}};
}
int main(int argc, char **argv) {
  mc::mute_all(); auto &c = mc::ctx(); Scratch scratch;
  auto all = [&](const std::string &only) {
    bool th = c.thorough(), san = c.mode.size() > 3 && c.mode.substr(c.mode.size() - 3) == "san"; size_t d = san ? 1 : th ? 2 : 1;
    auto want = [&](auto &g) { return only.empty() || only.compare(0, g.name.size() + 1, g.name + "/") == 0; };
    auto mem = [&](auto g, size_t dd) { if (want(g)) RunMemory(g, dd, only); };
    auto disk = [&](auto g, size_t dd) { if (want(g)) RunDisk(g, Disk(g), dd, only); };
    auto four = [&](auto g, size_t most) { if (want(g)) RunDisk(g, Four(g, most), 1, only); };
    if (c.mode == "memory" || c.mode == "memsan") {
      mem(Spin<double, U1QN>("s2", 2), san ? 1 : 2); mem(Spin<QLTEN_Complex, U1QN>("s3", 3), d); mem(Spin<double, U1QN>("s5", 5), 1); mem(Mixed<double, U1QN>("mix"), san ? 1 : 3);
#ifndef __SANITIZE_ADDRESS__
      mem(Spin<QLTEN_Complex, TrivialRepQN>("t3", 3), 1); mem(Spin<double, TrivialRepQN>("t4", 4), d); mem(Hubb<double, U1U1QN>("hub3", 3), 1); mem(Hubb<QLTEN_Complex, U1U1QN>("hub4", 4), 1);
#endif
    } else if (c.mode == "disk" || c.mode == "disksan") {
      disk(Spin<double, U1QN>("s2", 2), san ? 1 : 2); disk(Spin<QLTEN_Complex, U1QN>("s4", 4), d); disk(Spin<double, U1QN>("s5", 5), d);
#ifndef __SANITIZE_ADDRESS__
      disk(Spin<QLTEN_Complex, TrivialRepQN>("t3", 3), d); disk(Hubb<double, U1U1QN>("hub3", 3), 1); disk(Hubb<QLTEN_Complex, U1U1QN>("hub4", 4), 1);
#endif
    } else {
      four(Spin<double, U1QN>("s4", 4), 3); four(Spin<QLTEN_Complex, U1QN>("s5", 5), 3); four(Spin<double, U1QN>("s6", 6), th ? 4 : 3); four(Spin<double, U1QN>("s7", 7), 3);
#ifndef __SANITIZE_ADDRESS__
      four(Spin<QLTEN_Complex, TrivialRepQN>("t5", 5), 3); four(Hubb<double, U1U1QN>("hub5", 5), 2);
#endif
    }
  };
  return mc::main_driver(argc, argv, [&] { all(""); }, all);
}
