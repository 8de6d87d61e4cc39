// Exhaustive exploration of operation histories on a pool of pointer-owning vectors, against a
// value model, with instance accounting and (build flag) AddressSanitizer.
//   mode bfs : every operation from every reachable model state of the pool
//   mode seq : every operation sequence up to a bound (no state merging)
#include "mc.h"
#include "qlmps/one_dim_tn/framework/duovector.h"
#include <deque>
#include <memory>
#include <optional>
using namespace std; using qlmps::DuoVector;
static long live = 0;
struct E { int v; E() : v(7) { live++; } E(int x) : v(x) { live++; } E(const E &o) : v(o.v) { live++; } E &operator=(const E &o) { v = o.v; return *this; } ~E() { v = -99; live--; } };
typedef DuoVector<E> D;
struct Derived : D { int tag = 3; using D::D; Derived() : D() {} };   // used as a base class by the library

static const int EMPTY = 0;    // slot values: 0 empty, else element value
typedef vector<int> MV;        // model vector
struct Pool { vector<optional<MV>> v; bool operator<(const Pool &o) const { return v < o.v; } };
enum { MAKE, COPYC, MOVEC, COPYA, MOVEA, ALLOC, DEALLOC, CLEAR, WRITE, OWN, KILL };
struct Op { int k, i, j, x; };
static const char *nm[] = {"construct", "copy-construct", "move-construct", "copy-assign", "move-assign", "alloc", "dealloc", "clear", "write", "adopt-pointer", "destroy"};
static string enc(int P, const vector<Op> &h) { string s = to_string(P); for (auto &o : h) s += "/" + to_string(o.k) + "," + to_string(o.i) + "," + to_string(o.j) + "," + to_string(o.x); return s; }

static vector<Op> enabled(const Pool &p, int maxn) {
  vector<Op> r; int P = p.v.size();
  for (int i = 0; i < P; i++) {
    if (!p.v[i]) {
      for (int n = 0; n <= maxn; n++) r.push_back({MAKE, i, 0, n});
      for (int j = 0; j < P; j++) if (p.v[j]) { r.push_back({COPYC, i, j, 0}); r.push_back({MOVEC, i, j, 0}); }
    } else {
      for (int j = 0; j < P; j++) if (p.v[j]) { r.push_back({COPYA, i, j, 0}); r.push_back({MOVEA, i, j, 0}); }
      int n = p.v[i]->size();
      for (int x = 0; x < n; x++) { r.push_back({ALLOC, i, 0, x}); r.push_back({DEALLOC, i, 0, x}); r.push_back({WRITE, i, 1, x}); r.push_back({WRITE, i, 2, x}); if (!(*p.v[i])[x]) r.push_back({OWN, i, 3, x}); }
      r.push_back({CLEAR, i, 0, 0}); r.push_back({KILL, i, 0, 0});
    }
  }
  return r;
}
// What is left in a moved-from vector: no elements; its size may be kept or become zero
// (both are legitimate), so the behaviour of the code at hand is read off once.
static bool moved_keeps(bool assign) {
  static int c[2] = {-1, -1};
  if (c[assign] < 0) { D a(2); if (assign) { D b(1); b = std::move(a); } else { D b(std::move(a)); } c[assign] = a.size() != 0; }
  return c[assign];
}
static void drained(MV &m, bool assign) { if (moved_keeps(assign)) { for (auto &e : m) e = 0; } else m.clear(); }
static void mstep(Pool &p, const Op &o) {
  switch (o.k) {
    case MAKE: p.v[o.i] = MV(o.x, 0); break;
    case COPYC: p.v[o.i] = *p.v[o.j]; break;
    case MOVEC: p.v[o.i] = MV(*p.v[o.j]); drained(*p.v[o.j], false); break;
    case COPYA: p.v[o.i] = MV(*p.v[o.j]); break;
    case MOVEA: if (o.i != o.j) { p.v[o.i] = MV(*p.v[o.j]); drained(*p.v[o.j], true); } break;
    case ALLOC: (*p.v[o.i])[o.x] = 7; break;
    case DEALLOC: (*p.v[o.i])[o.x] = 0; break;
    case CLEAR: for (auto &e : *p.v[o.i]) e = 0; break;
    case WRITE: case OWN: (*p.v[o.i])[o.x] = o.j; break;
    case KILL: p.v[o.i].reset(); break;
  }
}
static bool check(const vector<unique_ptr<D>> &r, const Pool &p, string &why) {
  long n = 0; set<const E *> addr;
  for (size_t i = 0; i < r.size(); i++) {
    if (!p.v[i]) continue;
    const MV &m = *p.v[i]; const D &d = *r[i]; D &dm = *r[i];
    if (d.size() != m.size()) { why = "size " + to_string(d.size()) + " instead of " + to_string(m.size()); return false; }
    bool any = false; auto c = d.cdata();
    if (c.size() != m.size()) { why = "raw view size"; return false; }
    for (size_t k = 0; k < m.size(); k++) {
      const E *q = d(k);
      if ((q != nullptr) != (m[k] != 0)) { why = m[k] ? "element lost" : "element should be absent"; return false; }
      if (c[k] != q || dm(k) != q) { why = "accessors disagree"; return false; }
      if (q) { any = true; n++; if (q->v != m[k] || d[k].v != m[k] || dm[k].v != m[k]) { why = "element value " + to_string(q->v) + " instead of " + to_string(m[k]); return false; }
        if (&d[k] != q) { why = "reference and pointer accessors disagree"; return false; }
        if (!addr.insert(q).second) { why = "element shared between two places"; return false; } }
    }
    if (d.empty() != !any) { why = "empty() wrong"; return false; }
    if (!m.empty() && m[0] && (d.front().v != m[0] || &dm.front() != d(0))) { why = "front()"; return false; }
    if (!m.empty() && m.back() && (d.back().v != m.back() || &dm.back() != d(m.size() - 1))) { why = "back()"; return false; }
  }
  if (live != n) { why = "live elements " + to_string(live) + " instead of " + to_string(n) + " (leak or early release)"; return false; }
  return true;
}
static bool hist(int P, const vector<Op> &h, bool every) {
  auto &C = mc::ctx(); string id = enc(P, h); C.begin_case(id); C.evaluations++; C.traces_validated++;
  Pool p; p.v.resize(P); live = 0; string why; bool good = true; const char *last = "none";
  {
    vector<unique_ptr<D>> r(P);
    for (size_t s = 0; s < h.size(); s++) {
      auto &o = h[s]; C.transitions++; last = nm[o.k];
      switch (o.k) {
        case MAKE: if (o.i == 0) r[o.i].reset(new D(o.x)); else { auto q = new Derived(o.x); r[o.i].reset(q); } break;
        case COPYC: r[o.i].reset(new D(*r[o.j])); break;
        case MOVEC: r[o.i].reset(new D(std::move(*r[o.j]))); break;
        case COPYA: { D &res = (*r[o.i] = *r[o.j]); if (&res != r[o.i].get()) { C.violate("duo-assign-result", id, "assignment does not return the target"); good = false; } break; }
        case MOVEA: *r[o.i] = std::move(*r[o.j]); break;
        case ALLOC: r[o.i]->alloc(o.x); break;
        case DEALLOC: r[o.i]->dealloc(o.x); break;
        case CLEAR: r[o.i]->clear(); break;
        case WRITE: (*r[o.i])[o.x] = E(o.j); break;
        case OWN: (*r[o.i])(o.x) = new E(o.j); break;
        case KILL: r[o.i].reset(); break;
      }
      mstep(p, o);
      if (every || s + 1 == h.size()) if (!check(r, p, why)) { C.violate(string("duo-") + nm[o.k], id, string("after ") + nm[o.k] + ": " + why); good = false; break; }
    }
  }
  if (good && live != 0) { C.violate("duo-destroy-all", id, to_string(live) + " elements not released exactly once"); good = false; }
  if (good) C.outcome(string("last=") + last);
  return good;
}
static void bfs(int P, int maxn) {
  auto &C = mc::ctx(); map<Pool, vector<Op>> path; deque<Pool> q; Pool p0; p0.v.resize(P); path[p0] = {}; q.push_back(p0);
  while (!q.empty()) {
    Pool p = q.front(); q.pop_front(); if (C.shard == 0) C.states++;
    auto h = path[p]; bool mine = C.mine();
    for (auto &o : enabled(p, maxn)) {
      auto g = h; g.push_back(o); if (mine) hist(P, g, false);
      Pool n = p; mstep(n, o); if (!path.count(n)) { path[n] = g; q.push_back(n); }
    }
  }
  C.info["pool of " + to_string(P) + " vectors of size <= " + to_string(maxn)] = to_string(path.size()) + " reachable states, every operation from each";
}
static void seq(int P, int maxn, const Pool &p, vector<Op> &h, int depth) {
  auto &C = mc::ctx();
  if ((int) h.size() == depth) { hist(P, h, false); return; }
  if (!h.empty() && (h.size() > 1 || C.shard == 0)) hist(P, h, false);
  for (auto &o : enabled(p, maxn)) { if (h.size() == 1 && !C.mine()) continue; h.push_back(o); Pool n = p; mstep(n, o); seq(P, maxn, n, h, depth); h.pop_back(); }
}
static void run() {
  auto &C = mc::ctx(); bool t = C.thorough();
  if (C.mode == "bfs") { bfs(1, 3); bfs(2, 2); if (t) { bfs(3, 1); bfs(2, 3); } else bfs(3, 1); }
  else { Pool p; p.v.resize(2); vector<Op> h; seq(2, 2, p, h, t ? 6 : 5); Pool p1; p1.v.resize(1); h.clear(); seq(1, 2, p1, h, t ? 8 : 7); C.sample(enc(2, {{MAKE, 0, 0, 2}, {WRITE, 0, 1, 1}, {COPYC, 1, 0, 0}, {MOVEA, 0, 1, 0}})); }
}
static void rep(const string &s) { stringstream ss(s); string f; getline(ss, f, '/'); int P = stoi(f); vector<Op> h; while (getline(ss, f, '/')) { Op o; sscanf(f.c_str(), "%d,%d,%d,%d", &o.k, &o.i, &o.j, &o.x); h.push_back(o); } hist(P, h, false); }
int main(int argc, char **argv) { mc::mute_all(); return mc::main_driver(argc, argv, run, rep); }
