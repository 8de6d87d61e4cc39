// Exhaustive exploration of operation histories on the sparse matrices, against a dense model.
//   mode coef : SparMat of coefficients, all histories up to a depth
//   mode op   : operator matrices (adds row/column sorting)
//   mode state: breadth-first search over all reachable dense states (one real object per state)
#include "mc.h"
#include "qlmps/one_dim_tn/mpo/mpogen/symb_alg/coef_op_alg.h"
#include <algorithm>
#include <numeric>
#include <deque>
using namespace std;

// op codes
enum { SET, RMROW, RMCOL, SWROW, SWCOL, TRROW, TRCOL, SORTR, SORTC, COPY, ASSIGN, SELF, RESERVE };
struct Op { int k, a, b, c; };
struct Dense { int r, c; vector<int> e; bool operator<(const Dense &o) const { return tie(r, c, e) < tie(o.r, o.c, o.e); } };

static vector<int> perm_of(int n, int code) {
  vector<int> p(n); iota(p.begin(), p.end(), 0);
  while (code--) next_permutation(p.begin(), p.end());
  return p;
}
static int fact(int n) { int f = 1; for (int i = 2; i <= n; i++) f *= i; return f; }

static vector<Op> ops_for(int r, int c, int nval, bool op) {
  vector<Op> v;
  for (int x = 0; x < r; x++) for (int y = 0; y < c; y++) for (int e = 0; e < nval; e++) v.push_back({SET, x, y, e});
  for (int x = 0; x < r; x++) v.push_back({RMROW, x, 0, 0});
  for (int y = 0; y < c; y++) v.push_back({RMCOL, y, 0, 0});
  for (int x = 0; x < r; x++) for (int z = 0; z < r; z++) v.push_back({SWROW, x, z, 0});
  for (int x = 0; x < c; x++) for (int z = 0; z < c; z++) v.push_back({SWCOL, x, z, 0});
  for (int p = 1; p < fact(r) && r > 0; p++) v.push_back({TRROW, p, 0, 0});
  for (int p = 1; p < fact(c) && c > 0; p++) v.push_back({TRCOL, p, 0, 0});
  if (op && r && c) { v.push_back({SORTR, 0, 0, 0}); v.push_back({SORTC, 0, 0, 0}); }
  v.push_back({COPY, 0, 0, 0}); v.push_back({ASSIGN, 0, 0, 0}); v.push_back({SELF, 0, 0, 0}); v.push_back({RESERVE, 3, 0, 0});
  return v;
}
static string enc(int r, int c, const vector<Op> &h) {
  string s = to_string(r) + "," + to_string(c);
  for (auto &o : h) s += "/" + to_string(o.k) + "," + to_string(o.a) + "," + to_string(o.b) + "," + to_string(o.c);
  return s;
}

// model step
static void mstep(Dense &d, const Op &o) {
  auto at = [&](int x, int y) -> int & { return d.e[x * d.c + y]; };
  auto build = [&](int nr, int nc, auto f) {
    Dense n; n.r = nr; n.c = nc; n.e.resize(nr * nc);
    for (int x = 0; x < nr; x++) for (int y = 0; y < nc; y++) n.e[x * nc + y] = f(x, y);
    d = n;
  };
  Dense p = d;
  auto old = [&](int x, int y) { return p.e[x * p.c + y]; };
  switch (o.k) {
    case SET: at(o.a, o.b) = o.c; break;
    case RMROW: if (d.r == 1) d = Dense{0, 0, {}}; else build(p.r - 1, p.c, [&](int x, int y) { return old(x >= o.a ? x + 1 : x, y); }); break;
    case RMCOL: if (d.c == 1) d = Dense{0, 0, {}}; else build(p.r, p.c - 1, [&](int x, int y) { return old(x, y >= o.a ? y + 1 : y); }); break;
    case SWROW: build(p.r, p.c, [&](int x, int y) { return old(x == o.a ? o.b : x == o.b ? o.a : x, y); }); break;
    case SWCOL: build(p.r, p.c, [&](int x, int y) { return old(x, y == o.a ? o.b : y == o.b ? o.a : y); }); break;
    case TRROW: { auto q = perm_of(p.r, o.a); build(p.r, p.c, [&](int x, int y) { return old(q[x], y); }); break; }
    case TRCOL: { auto q = perm_of(p.c, o.a); build(p.r, p.c, [&](int x, int y) { return old(x, q[y]); }); break; }
    case SORTR: case SORTC: break;   // handled by the caller (the returned permutation is checked)
  }
}

template<class M> struct El;
template<> struct El<SparCoefReprMat> {
  using E = CoefRepr;
  static E val(int e) { return e == 0 ? E() : e == 1 ? E(0) : e == 2 ? E(vector<long>{1, 2}) : E(vector<long>{2, 1}); }
};
template<> struct El<SparOpReprMat> {
  using E = OpRepr;
  static E val(int e) { return e == 0 ? E() : e == 1 ? E(0) : e == 2 ? OpRepr(CoefRepr(1), 2) : OpRepr(CoefRepr(1), 3); }
};

template<class M> static bool cmp(const M &m, const Dense &d, string &why) {
  using E = typename El<M>::E;
  if ((int) m.rows != d.r || (int) m.cols != d.c) { why = "shape " + to_string(m.rows) + "x" + to_string(m.cols) + " instead of " + to_string(d.r) + "x" + to_string(d.c); return false; }
  for (int x = 0; x < d.r; x++) {
    auto row = m.GetRow(x);
    if ((int) row.size() != d.c) { why = "row length"; return false; }
    for (int y = 0; y < d.c; y++) {
      E e = El<M>::val(d.e[x * d.c + y]);
      if (!(m(x, y) == e)) { why = "element (" + to_string(x) + "," + to_string(y) + ")"; return false; }
      if (m.IsNull(x, y) != (d.e[x * d.c + y] == 0)) { why = "null flag (" + to_string(x) + "," + to_string(y) + ")"; return false; }
      if (!(row[y] == e)) { why = "row getter (" + to_string(x) + "," + to_string(y) + ")"; return false; }
    }
  }
  for (int y = 0; y < d.c; y++) {
    auto col = m.GetCol(y);
    if ((int) col.size() != d.r) { why = "column length"; return false; }
    for (int x = 0; x < d.r; x++) if (!(col[x] == El<M>::val(d.e[x * d.c + y]))) { why = "column getter (" + to_string(x) + "," + to_string(y) + ")"; return false; }
  }
  M fresh(d.r, d.c);
  for (int x = 0; x < d.r; x++) for (int y = 0; y < d.c; y++) if (d.e[x * d.c + y]) fresh.SetElem(x, y, El<M>::val(d.e[x * d.c + y]));
  if (!(fresh == m) || !(m == fresh)) { why = "not equal to a freshly built matrix of the same content"; return false; }
  if (d.r && d.c) {
    M other(fresh); int e = d.e[0] == 1 ? 2 : 1; other.SetElem(0, 0, El<M>::val(e));
    if (other == m) { why = "equal to a matrix with a different element"; return false; }
    if (d.r * d.c > 1) for (auto sh : {make_pair(d.c, d.r), make_pair(1, d.r * d.c), make_pair(d.r * d.c, 1)}) if (sh.first != d.r) {   // same number of elements, other shape
      M re(sh.first, sh.second); for (int i = 0; i < d.r * d.c; i++) if (d.e[i]) re.SetElem(i / sh.second, i % sh.second, El<M>::val(d.e[i]));
      if (re == m || m == re) { why = "equal to a matrix of another shape"; return false; }
    }
    if (M(d.r + 1, d.c) == m || M(d.r, d.c + 1) == m) { why = "equal to a matrix of another shape"; return false; }
  }
  return true;
}

template<class M> static bool sorted_ok(M &m, Dense &d, bool rows, string &why);
template<> bool sorted_ok<SparCoefReprMat>(SparCoefReprMat &, Dense &, bool, string &) { return true; }
template<> bool sorted_ok<SparOpReprMat>(SparOpReprMat &m, Dense &d, bool rows, string &why) {
  auto p = rows ? m.SortRows() : m.SortCols();
  int n = rows ? d.r : d.c, o = rows ? d.c : d.r;
  vector<int> chk(n, 0);
  if ((int) p.size() != n) { why = "sort returned a wrong number of positions"; return false; }
  for (auto i : p) { if ((int) i >= n || chk[i]++) { why = "sort did not return a permutation"; return false; } }
  Dense q = d;
  for (int i = 0; i < n; i++) for (int j = 0; j < o; j++) { if (rows) q.e[i * d.c + j] = d.e[p[i] * d.c + j]; else q.e[j * d.c + i] = d.e[j * d.c + p[i]]; }
  d = q;
  int last = -1;
  for (int i = 0; i < n; i++) {
    int c = 0; for (int j = 0; j < o; j++) if (rows ? d.e[i * d.c + j] : d.e[j * d.c + i]) c++;
    if (c < last) { why = "sort does not order by number of entries"; return false; }
    last = c;
  }
  return true;
}

template<class M> static bool rstep(M &m, Dense &d, const Op &o, string &why) {
  switch (o.k) {
    case SET: m.SetElem(o.a, o.b, El<M>::val(o.c)); break;
    case RMROW: m.RemoveRow(o.a); break;
    case RMCOL: m.RemoveCol(o.a); break;
    case SWROW: m.SwapTwoRows(o.a, o.b); break;
    case SWCOL: m.SwapTwoCols(o.a, o.b); break;
    case TRROW: { auto q = perm_of(d.r, o.a); m.TransposeRows(vector<size_t>(q.begin(), q.end())); break; }
    case TRCOL: { auto q = perm_of(d.c, o.a); m.TransposeCols(vector<size_t>(q.begin(), q.end())); break; }
    case SORTR: return sorted_ok(m, d, true, why);
    case SORTC: return sorted_ok(m, d, false, why);
    case COPY: { M c(m); if (d.r && d.c) m.SetElem(0, 0, El<M>::val(d.e[0] == 1 ? 2 : 1)); m = c; break; }   // the copy must not follow the original
    case ASSIGN: { M c(1, 1); c = m; if (d.r && d.c) c.SetElem(0, 0, El<M>::val(d.e[0] == 1 ? 2 : 1)); break; }
    case SELF: { M &r = m; m = r; break; }
    case RESERVE: m.Reserve(o.a); break;
  }
  mstep(d, o);
  return true;
}
static const char *names[] = {"set", "remove-row", "remove-col", "swap-rows", "swap-cols", "permute-rows", "permute-cols", "sort-rows", "sort-cols", "copy", "assign", "self-assign", "reserve"};

template<class M> static bool run_hist(int r, int c, const vector<Op> &h) {
  auto &C = mc::ctx();
  string id = enc(r, c, h), why;
  C.begin_case(id);
  M m(r, c); Dense d{r, c, vector<int>(r * c, 0)};
  C.evaluations++; C.traces_validated++;
  for (size_t i = 0; i < h.size(); i++) {
    C.transitions++;
    bool ok = rstep(m, d, h[i], why);
    if (ok && i + 1 == h.size()) ok = cmp(m, d, why);   // every prefix is a history of its own
    if (!ok) { C.violate(string("sparse-") + names[h[i].k], id, string("after ") + names[h[i].k] + ": " + why); return false; }
  }
  C.outcome(string("last=") + (h.empty() ? "none" : names[h.back().k]) + " shape=" + to_string(d.r) + "x" + to_string(d.c));
  return true;
}

template<class M> static void dfs(int r0, int c0, Dense d, vector<Op> &h, int depth, int nval, bool op) {
  auto &C = mc::ctx();
  if (!h.empty()) {
    if (h.size() != 1 || C.shard == 0) { if (!run_hist<M>(r0, c0, h)) return; }
  }
  if ((int) h.size() == depth) return;
  // model state after h, for the enabled operations (sorting order read off by re-running)
  for (auto &o : ops_for(d.r, d.c, nval, op)) {
    if (h.size() == 1 && !C.mine()) continue;
    h.push_back(o);
    Dense e = d;
    if (o.k == SORTR || o.k == SORTC) {
      // stable order by (count, index)
      vector<pair<int, int>> key; int n = o.k == SORTR ? d.r : d.c, w = o.k == SORTR ? d.c : d.r;
      for (int i = 0; i < n; i++) { int c = 0; for (int j = 0; j < w; j++) if (o.k == SORTR ? d.e[i * d.c + j] : d.e[j * d.c + i]) c++; key.push_back({c, i}); }
      sort(key.begin(), key.end());
      for (int i = 0; i < n; i++) for (int j = 0; j < w; j++) { if (o.k == SORTR) e.e[i * d.c + j] = d.e[key[i].second * d.c + j]; else e.e[j * d.c + i] = d.e[j * d.c + key[i].second]; }
    } else mstep(e, o);
    dfs<M>(r0, c0, e, h, depth, nval, op);
    h.pop_back();
  }
}

template<class M> static void bfs(int r0, int c0, int nval, bool op) {
  auto &C = mc::ctx();
  map<Dense, vector<Op>> path; deque<Dense> q;
  Dense d0{r0, c0, vector<int>(r0 * c0, 0)};
  path[d0] = {}; q.push_back(d0);
  while (!q.empty()) {
    Dense d = q.front(); q.pop_front(); C.states++;
    auto h = path[d];
    // every shape-preserving or shrinking operation from this state
    bool mine = C.mine();
    for (auto &o : ops_for(d.r, d.c, nval, op)) {
      auto g = h; g.push_back(o);
      if (mine) run_hist<M>(r0, c0, g);
      if (o.k == SORTR || o.k == SORTC) continue;
      Dense e = d; mstep(e, o);
      if (!path.count(e)) { path[e] = g; q.push_back(e); }
    }
  }
  C.info["reachable dense states from empty " + to_string(r0) + "x" + to_string(c0) + (op ? " op" : " coef")] = to_string(path.size());
}

static void run() {
  auto &C = mc::ctx(); bool op = C.mode == "op";
  auto D = [&](int r, int c, int depth, int nval) {
    vector<Op> h; Dense d{r, c, vector<int>(r * c, 0)};
    if (op) dfs<SparOpReprMat>(r, c, d, h, depth, nval, true); else dfs<SparCoefReprMat>(r, c, d, h, depth, nval, false);
    C.info["all histories from empty " + to_string(r) + "x" + to_string(c)] = "length <= " + to_string(depth);
  };
  if (C.mode == "state") {
    bfs<SparCoefReprMat>(2, 2, 4, false); bfs<SparCoefReprMat>(2, 3, 3, false); bfs<SparCoefReprMat>(3, 2, 3, false);
    bfs<SparOpReprMat>(2, 3, 3, true); bfs<SparOpReprMat>(3, 2, 3, true);
    if (C.thorough()) { bfs<SparOpReprMat>(3, 3, 3, true); bfs<SparCoefReprMat>(3, 3, 3, false); bfs<SparCoefReprMat>(2, 4, 3, false); bfs<SparCoefReprMat>(4, 2, 3, false); }
    else { bfs<SparCoefReprMat>(3, 3, 2, false); bfs<SparOpReprMat>(3, 3, 2, true); }
    C.states = C.shard == 0 ? C.states : 0;
    return;
  }
  bool t = C.thorough();
  D(1, 1, t ? 6 : 5, 4); D(1, 2, t ? 5 : 4, 3); D(2, 1, t ? 5 : 4, 3); D(2, 2, t ? 5 : 4, 3); D(2, 3, t ? 4 : 3, 3); D(3, 2, t ? 4 : 3, 3); D(3, 3, 3, 2); D(4, 2, 3, 2); D(2, 4, 3, 2);
  // permutations of a distinguishable 3x3 matrix
  C.sample(enc(2, 2, {{SET, 0, 1, 2}, {RMCOL, 0, 0, 0}, {SWROW, 0, 1, 0}}));
}
static void rep(const string &s) {
  stringstream ss(s); string f; getline(ss, f, '/'); int r, c; sscanf(f.c_str(), "%d,%d", &r, &c);
  vector<Op> h; while (getline(ss, f, '/')) { Op o; sscanf(f.c_str(), "%d,%d,%d,%d", &o.k, &o.a, &o.b, &o.c); h.push_back(o); }
  if (mc::ctx().mode == "coef") { run_hist<SparCoefReprMat>(r, c, h); return; }
  if (mc::ctx().mode == "op") { run_hist<SparOpReprMat>(r, c, h); return; }
  run_hist<SparOpReprMat>(r, c, h); run_hist<SparCoefReprMat>(r, c, h);
}
int main(int argc, char **argv) { mc::mute_all(); return mc::main_driver(argc, argv, run, rep); }
