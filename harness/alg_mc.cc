// Exhaustive exploration of the coefficient / operator symbol algebra.
//   mode coef : all coefficients with up to 3 summands; all pairs and triples
//   mode op   : all operators over a small alphabet; all pairs, triples over a smaller one
//   mode label: every history of label requests
//   mode mat  : compression of every small (target, follower) matrix pair keeps their product
// Oracles: multisets of labels, and integer evaluation with label values 1, 2^20, 2^40 ...
#include "mc.h"
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
#include <algorithm>
using namespace std;
typedef unsigned __int128 u128;
typedef vector<long> L;
static const vector<long long> VAL = {1, 1000, 1000000, 1000000000ll, 7};   // label -> number (all sums stay apart)
static L srt(L v) { sort(v.begin(), v.end()); return v; }
static string sl(const L &v) { string s = "("; for (auto x : v) s += to_string(x); return s + ")"; }
static vector<L> lists(int n, int maxlen) {
  vector<L> r{{}}; size_t b = 0;
  for (int l = 1; l <= maxlen; l++) { size_t e = r.size(); for (size_t i = b; i < e; i++) for (int x = 0; x < n; x++) { auto v = r[i]; v.push_back(x); r.push_back(v); } b = e; }
  return r;
}
static string want_str(const L &v) {
  if (v.empty()) return "0";
  auto one = [](long l) { return l == 0 ? string("1") : string(1, 'a' + l - 1); };
  if (v.size() == 1) return one(v[0]);
  string s = "("; for (size_t i = 0; i < v.size(); i++) s += (i ? "+" : "") + one(v[i]); return s + ")";
}
static long long sum(const L &v) { long long s = 0; for (auto x : v) s += VAL[x]; return s; }
static string only;     // replay filter
static bool sel(const string &id) { if (!only.empty() && only != id) return false; mc::ctx().begin_case(id); return true; }
#define REQ(cond, key, msg) do { if (!(cond)) { C.violate(key, id, msg); } } while (0)

static void coef() {
  auto &C = mc::ctx();
  auto A = lists(4, 3);                      // 85 coefficients
  for (auto &a : A) {
    string id = "c1" + sl(a); if (!C.mine() && only.empty()) continue; if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.states++;
    CoefRepr x(a);
    REQ(srt(x.GetCoefLabelList()) == srt(a), "coef-labels", "labels lost");
    REQ(x.Realize(VAL) == sum(a), "coef-value", "value is not the sum of its summands");
    vector<double> dv(VAL.begin(), VAL.end());
    REQ(x.Realize(dv) == (double) sum(a), "coef-value", "floating value is not the sum of its summands");
    REQ(x == x && !(x != x) && x <= x && x >= x && !(x < x) && !(x > x), "coef-order", "not equal to itself");
    CoefRepr y(x), z; z = x; REQ(y == x && z == x, "coef-copy", "copy differs");
    CoefRepr w(std::move(y)); CoefRepr v; v = std::move(z); REQ(w == x && v == x, "coef-copy", "move loses the value");
    x = x; REQ(x == CoefRepr(a), "coef-copy", "self-assignment changes the value");
    // the printed form lists every summand
    string s = x.ToString(); string t = s, u = want_str(a);
    sort(t.begin(), t.end()); sort(u.begin(), u.end());
    REQ(t == u, "coef-print", "printed as " + s + " for " + want_str(a));
    REQ(stoll(x.ToString(vector<long long>(VAL))) == sum(a), "coef-print", "numeric print is not the value");
    if (a.size() == 1) REQ(CoefRepr(a[0]) == x, "coef-labels", "one-label constructor differs");
    if (a.empty()) REQ(CoefRepr() == x && x == kNullCoefRepr, "coef-labels", "null differs");
  }
  for (auto &a : A) for (auto &b : A) {
    if (!C.mine() && only.empty()) continue;
    string id = "c2" + sl(a) + sl(b); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 3;
    CoefRepr x(a), y(b); CoefRepr s = x + y, t = y + x, u(x); u += y;
    REQ(x.GetCoefLabelList() == a && y.GetCoefLabelList() == b, "coef-add", "operand changed");
    REQ(s == t && s == u, "coef-add", "sum depends on the order of the summands");
    REQ(s.Realize(VAL) == sum(a) + sum(b), "coef-add", "value of the sum");
    bool eq = srt(a) == srt(b);
    REQ((x == y) == eq && (x != y) == !eq && (y == x) == eq, "coef-equal", "equality is not equality of summands");
    REQ((int) (x < y) + (int) (y < x) + (int) (x == y) == 1, "coef-order", "not exactly one of <, ==, >");
    REQ((x > y) == (y < x) && (x <= y) == !(y < x) && (x >= y) == !(x < y), "coef-order", "comparison operators disagree");
    C.outcome(eq ? "equal" : "different");
  }
  auto B = lists(3, 2);                      // 13
  for (auto &a : B) for (auto &b : B) for (auto &c : B) {
    if (!C.mine() && only.empty()) continue;
    string id = "c3" + sl(a) + sl(b) + sl(c); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 4;
    CoefRepr x(a), y(b), z(c);
    REQ((x + y) + z == x + (y + z), "coef-add", "addition is not associative");
    REQ(!(x < y && y < z) || x < z, "coef-order", "ordering is not transitive");
    CoefRepr w(x); w += y; w += w;
    REQ(w.Realize(VAL) == 2 * (sum(a) + sum(b)), "coef-add", "in-place self addition");
    C.outcome("triple");
  }
}

typedef map<long, L> Op;      // basis label -> coefficient labels
static string so(const Op &o) { string s = "{"; for (auto &x : o) s += to_string(x.first) + sl(x.second); return s + "}"; }
static OpRepr mk(const Op &o) {
  vector<CoefRepr> c; vector<long> l;
  for (auto &x : o) { c.push_back(CoefRepr(x.second)); l.push_back(x.first); }
  return OpRepr(c, l);
}
static bool same(const Op &a, const Op &b) {
  if (a.size() != b.size()) return false;
  for (auto &x : a) { auto i = b.find(x.first); if (i == b.end() || srt(i->second) != srt(x.second)) return false; }
  return true;
}
static bool same(const OpRepr &r, const Op &o) {
  auto l = r.GetOpLabelList(); auto c = r.GetCoefReprList();
  if (l.size() != c.size()) return false;
  Op m; for (size_t i = 0; i < l.size(); i++) { if (m.count(l[i])) return false; m[l[i]] = c[i].GetCoefLabelList(); }
  return same(m, o);
}
static u128 ev(const Op &o) { static const u128 OV[] = {1, (u128) 1 << 40, (u128) 1 << 80}; u128 s = 0; for (auto &x : o) s += OV[x.first] * (u128) sum(x.second); return s; }
static Op plus_(Op a, const Op &b) { for (auto &x : b) { auto &v = a[x.first]; v.insert(v.end(), x.second.begin(), x.second.end()); } return a; }
struct Num { u128 v = 0; Num &operator+=(const Num &o) { v += o.v; return *this; } };
static Num operator*(long long c, const Num &n) { Num r; r.v = (u128) c * n.v; return r; }

static vector<Op> ops(int nl, const vector<L> &cs) {
  vector<Op> r{{}};
  for (int l = 0; l < nl; l++) { auto b = r; for (auto &o : b) for (auto &c : cs) { auto p = o; p[l] = c; r.push_back(p); } }
  return r;
}
static void op() {
  auto &C = mc::ctx();
  auto A = ops(3, {{0}, {1}, {2}, {0, 0}, {0, 1}, {1, 0}});    // 7^3 = 343
  vector<Num> OV(3); OV[0].v = 1; OV[1].v = (u128) 1 << 40; OV[2].v = (u128) 1 << 80;
  for (auto &a : A) {
    if (!C.mine() && only.empty()) continue;
    string id = "o1" + so(a); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.states++;
    OpRepr x = mk(a);
    REQ(same(x, a), "op-content", "terms lost or changed");
    REQ(x.Realize(VAL, OV).v == ev(a), "op-value", "value is not the sum of its terms");
    OpRepr y(x), z; z = x; REQ(y == x && z == x && !(y != x), "op-copy", "copy differs");
    x = x; REQ(same(x, a), "op-copy", "self-assignment changes the value");
    REQ((x == kNullOpRepr) == a.empty(), "op-equal", "null test");
    REQ(!(x < x), "op-order", "less than itself");
    auto cb = SeparateCoefAndBase(x);
    // coefficient times base gives the operator back
    Op base; { auto l = cb.second.GetOpLabelList(); auto c = cb.second.GetCoefReprList(); for (size_t i = 0; i < l.size(); i++) base[l[i]] = c[i].GetCoefLabelList(); }
    u128 f = (u128) cb.first.Realize(VAL) * (a.empty() ? 0 : ev(base));
    REQ(a.empty() ? (cb.first == kNullCoefRepr && cb.second == kNullOpRepr) : f == ev(a), "op-separate", "coefficient times base operator is not the operator");
    bool uniform = !a.empty(); for (auto &t : a) if (srt(t.second) != srt(a.begin()->second)) uniform = false;
    if (uniform) {
      REQ(cb.first == CoefRepr(a.begin()->second), "op-separate", "common coefficient not extracted");
      bool bare = true; for (auto &t : base) if (t.second != L{0}) bare = false;
      REQ(bare, "op-separate", "base operator keeps coefficients");
      REQ(same(CoefReprOpReprIncompleteMulti(cb.first, cb.second), a), "op-multiply", "coefficient times base operator is not the operator");
    }
    REQ(GetOpReprCoef(x) == cb.first, "op-separate", "coefficient getter differs");
    REQ(CoefReprOpReprIncompleteMulti(kIdCoefRepr, x) == x, "op-multiply", "multiplication with one changes the operator");
    // printing names every term, in both the symbolic and the numeric form
    string s = x.ToString(); string want;
    { bool first = true; if (a.empty()) want = "0"; for (auto &t : a) { want += (first ? "" : "+") + want_str(t.second) + (t.first == 0 ? string("Id") : string(1, 'A' + t.first - 1)); first = false; } }
    string p = s, q = want; sort(p.begin(), p.end()); sort(q.begin(), q.end());
    REQ(p == q, "op-print", "printed as " + s + " for " + want);
    ostringstream os; os << x; REQ(os.str() == s, "op-print", "stream output differs");
    C.outcome("op terms=" + to_string(a.size()) + (uniform ? " uniform" : ""));
  }
  auto B = ops(3, {{0}, {1}, {0, 1}, {1, 0}});                 // 125
  for (auto &a : B) for (auto &b : B) {
    if (!C.mine() && only.empty()) continue;
    string id = "o2" + so(a) + so(b); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 3;
    OpRepr x = mk(a), y = mk(b), s = x + y, t = y + x, u(x); u += y; Op w = plus_(a, b);
    REQ(same(x, a) && same(y, b), "op-add", "operand changed");
    REQ(same(s, w) && same(t, w) && same(u, w), "op-add", "sum is not the term-wise sum");
    REQ(s.Realize(VAL, OV).v == ev(a) + ev(b), "op-add", "value of the sum");
    bool eq = same(a, b);
    REQ((x == y) == eq && (y == x) == eq && (x != y) == !eq, "op-equal", "equality is not equality of terms");
    REQ((int) (x < y) + (int) (y < x) + (int) eq == 1, "op-order", "ordering disagrees with equality");
    C.outcome(eq ? "op pair equal" : "op pair different");
  }
  auto D = ops(2, {{0}, {1}, {0, 1}});                          // 16
  for (auto &a : D) for (auto &b : D) for (auto &c : D) {
    if (!C.mine() && only.empty()) continue;
    string id = "o3" + so(a) + so(b) + so(c); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 4;
    OpRepr x = mk(a), y = mk(b), z = mk(c);
    REQ((x + y) + z == x + (y + z), "op-add", "addition is not associative");
    REQ(!(x < y && y < z) || x < z, "op-order", "ordering is not transitive");
    OpRepr w = x + y; w += w;
    REQ(same(w, plus_(plus_(a, b), plus_(a, b))), "op-add", "in-place self addition");
    C.outcome("op triple");
  }
  // lists with repeated basis operators, in every order
  vector<L> ls = lists(3, 4);
  for (auto &l : ls) for (int code = 0; code < 81; code++) {
    int n = 1; for (size_t i = 0; i < l.size(); i++) n *= 3; if (code >= n) break;
    if (!C.mine() && only.empty()) continue;
    string id = "o4" + sl(l) + to_string(code); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions++;
    static const vector<L> cs = {{0}, {1}, {2, 0}};
    vector<CoefRepr> cr; Op m; int y = code;
    for (auto b : l) { auto &c = cs[y % 3]; y /= 3; cr.push_back(CoefRepr(c)); auto &v = m[b]; v.insert(v.end(), c.begin(), c.end()); }
    REQ(same(OpRepr(cr, l), m), "op-build", "repeated basis operators are not accumulated");
    if (code == 0) { Op k; for (auto b : l) k[b].push_back(0); REQ(same(OpRepr(l), k), "op-build", "repeated basis operators (no coefficients) are not accumulated"); }
    if (l.size() == 1) { REQ(same(OpRepr(cr[0], l[0]), m), "op-build", "coefficient constructor"); if (code == 0) REQ(same(OpRepr(l[0]), m), "op-build", "label constructor"); }
    C.outcome("op build");
  }
}

// label histories
struct Obj { int v; Obj(int v = 0) : v(v) {} bool operator==(const Obj &o) const { return v == o.v; } Obj operator-() const { return Obj(-v); } };
static ostream &operator<<(ostream &o, const Obj &x) { return o << x.v; }
static void one_label(const vector<int> &h, bool seeded) {
  auto &C = mc::ctx();
  string id = "l" + string(seeded ? "s" : "e"); for (int x : h) id += "," + to_string(x);
  if (!sel(id)) return;
  C.evaluations++; C.traces_validated++;
  LabelConvertor<Obj> lc = seeded ? LabelConvertor<Obj>(Obj(1)) : LabelConvertor<Obj>();
  vector<int> hub; if (seeded) hub.push_back(1);
  for (int x : h) {
    C.transitions++;
    size_t want; auto it = find(hub.begin(), hub.end(), x);
    if (it == hub.end()) { hub.push_back(x); want = hub.size() - 1; } else want = it - hub.begin();
    size_t got = lc.Convert(Obj(x));
    REQ(got == want, "label-stable", "object " + to_string(x) + " got label " + to_string(got) + " instead of " + to_string(want));
    auto m = lc.GetLabelObjMapping();
    bool ok = m.size() == hub.size(); for (size_t i = 0; ok && i < hub.size(); i++) ok = m[i].v == hub[i];
    REQ(ok, "label-table", "the label table does not list the objects in order of first use");
    if (!ok || got != want) return;
  }
  LabelConvertor<Obj> cp; cp = lc;
  bool ok = cp.GetLabelObjMapping() == lc.GetLabelObjMapping();
  REQ(ok, "label-copy", "assignment loses labels");
  lc.Convert(Obj(99)); REQ(cp.GetLabelObjMapping().size() == hub.size(), "label-copy", "the copy follows the original");
  C.states++; C.outcome("labels=" + to_string(hub.size()));
}
static void label() {
  auto &C = mc::ctx(); int D = C.thorough() ? 7 : 6;
  const vector<int> objs = {1, 2, -2, 3, 0};
  for (int seeded = 0; seeded < 2; seeded++) for (int len = 0; len <= D; len++) {
    vector<size_t> ix(len, 0);
    while (true) {
      if (C.mine() || !only.empty()) { vector<int> h; for (auto i : ix) h.push_back(objs[i]); one_label(h, seeded); }
      int p = len - 1; while (p >= 0 && ++ix[p] == objs.size()) ix[p--] = 0; if (p < 0) break;
    }
  }
}

// compression of a matrix pair
typedef map<pair<int, int>, u128> Prod;
static u128 cv(const CoefRepr &c) { u128 s = 0; for (auto l : c.GetCoefLabelList()) s += l == 0 ? (u128) 1 : l == 1 ? (u128) 1 << 20 : (u128) 1 << 45; return s; }
static vector<Prod> product(const SparOpReprMat &a, const SparOpReprMat &b) {
  vector<Prod> r(a.rows * b.cols);
  for (size_t i = 0; i < a.rows; i++) for (size_t k = 0; k < a.cols; k++) for (size_t j = 0; j < b.cols; j++) {
    const OpRepr x = a(i, k), y = b(k, j);
    auto xl = x.GetOpLabelList(), yl = y.GetOpLabelList(); auto xc = x.GetCoefReprList(), yc = y.GetCoefReprList();
    for (size_t p = 0; p < xl.size(); p++) for (size_t q = 0; q < yl.size(); q++) r[i * b.cols + j][{(int) xl[p], (int) yl[q]}] += cv(xc[p]) * cv(yc[q]);
  }
  return r;
}
static OpRepr ent(int e) {
  switch (e) { case 0: return OpRepr(); case 1: return OpRepr(1); case 2: return OpRepr(2); case 3: return OpRepr(CoefRepr(1), 1); case 4: return OpRepr(CoefRepr(2), 1); case 5: return OpRepr(CoefRepr(1), 2); case 6: return OpRepr(1) + OpRepr(2); case 7: return OpRepr({CoefRepr(1), CoefRepr(1)}, vector<long>{1, 2}); case 8: return OpRepr(CoefRepr(2), 2); }
  return OpRepr();
}
static void one_mat(int n, int k, int m, const vector<int> &t, const vector<int> &f, bool cols) {
  auto &C = mc::ctx();
  string id = string(cols ? "mc" : "mr") + to_string(n) + to_string(k) + to_string(m); for (int x : t) id += to_string(x); id += "_"; for (int x : f) id += to_string(x);
  if (!sel(id)) return;
  SparOpReprMat T(cols ? n : k, cols ? k : n), F(cols ? k : m, cols ? m : k);
  for (int i = 0; i < n; i++) for (int j = 0; j < k; j++) { if (cols) T.SetElem(i, j, ent(t[i * k + j])); else T.SetElem(j, i, ent(t[i * k + j])); }
  for (int i = 0; i < k; i++) for (int j = 0; j < m; j++) { if (cols) F.SetElem(i, j, ent(f[i * m + j])); else F.SetElem(j, i, ent(f[i * m + j])); }
  auto before = cols ? product(T, F) : product(F, T);
  C.evaluations++; C.traces_validated++; C.transitions++;
  if (cols) SparOpReprMatColCompresser(T, F); else SparOpReprMatRowCompresser(T, F);
  size_t b = cols ? T.cols : T.rows, b2 = cols ? F.rows : F.cols;
  if (b != b2 || (cols ? T.rows : T.cols) != (size_t) n || (cols ? F.cols : F.rows) != (size_t) m) { C.violate("pair-shape", id, "matrices no longer chain"); return; }
  if (b > (size_t) k) { C.violate("pair-grew", id, "bond enlarged"); return; }
  auto after = cols ? product(T, F) : product(F, T);
  for (auto &p : before) for (auto it = p.begin(); it != p.end();) it = it->second == 0 ? p.erase(it) : next(it);
  for (auto &p : after) for (auto it = p.begin(); it != p.end();) it = it->second == 0 ? p.erase(it) : next(it);
  if (before != after) { C.violate("pair-product", id, "product of the two matrices changed"); return; }
  C.states++; C.outcome("pair bond " + to_string(k) + "->" + to_string(b));
}
static void mat() {
  auto &C = mc::ctx();
  auto all = [&](int cells, int nv, auto fn) { vector<int> v(cells, 0); while (true) { fn(v); int p = cells - 1; while (p >= 0 && ++v[p] == nv) v[p--] = 0; if (p < 0) break; } };
  // followers with distinguishable entries, so that every mistake shows
  vector<int> f2 = {1, 2, 2, 6}, f2b = {1, 0, 0, 2}, f3 = {1, 2, 2, 6, 6, 0}, f3b = {1, 0, 2, 1, 0, 2}, f3c = {2, 0, 1, 6, 1, 0};
  for (bool cols : {true, false}) {
    all(4, 9, [&](const vector<int> &t) { if (C.mine()) for (auto &f : {f2, f2b, vector<int>{1, 1, 1, 1}}) one_mat(2, 2, 2, t, f, cols); });
    all(6, C.thorough() ? 8 : 6, [&](const vector<int> &t) { if (C.mine()) { one_mat(2, 3, 2, t, f3, cols); if (C.thorough()) { one_mat(2, 3, 2, t, f3b, cols); one_mat(2, 3, 2, t, f3c, cols); } } });
    all(6, C.thorough() ? 8 : 6, [&](const vector<int> &t) { if (C.mine()) one_mat(3, 2, 2, t, f2, cols); });
    all(3, 9, [&](const vector<int> &t) { all(3, 3, [&](const vector<int> &f) { if (C.mine()) one_mat(1, 3, 1, t, f, cols); }); });
    all(4, 9, [&](const vector<int> &t) { if (C.mine()) one_mat(1, 4, 2, t, {1, 2, 2, 1, 6, 0, 0, 1}, cols); });
    // long matrices, so that several rows or columns are merged one after the other
    { static const int em[4] = {0, 1, 3, 4}; const vector<int> f5 = {1, 2, 2, 1, 6, 0, 0, 1, 2, 2};
      auto longm = [&](int nv) { return [&, nv](const vector<int> &t) { if (C.mine()) { vector<int> u(10); for (int i = 0; i < 10; i++) u[i] = em[t[i]]; one_mat(2, 5, 2, u, f5, cols); } }; };
      all(10, C.thorough() ? 4 : 3, longm(0));
      // last long vector free, the others plain
      all(8, 2, [&](const vector<int> &t) { all(2, 4, [&](const vector<int> &l) { if (C.mine()) { vector<int> u(10); for (int i = 0; i < 2; i++) { for (int j = 0; j < 4; j++) u[i * 5 + j] = em[t[i * 4 + j]]; u[i * 5 + 4] = em[l[i]]; } one_mat(2, 5, 2, u, f5, cols); } }); }); }
    // plain targets, followers carrying coefficients
    all(4, 3, [&](const vector<int> &t) { all(4, 9, [&](const vector<int> &f) { if (C.mine()) one_mat(2, 2, 2, t, f, cols); }); });
  }
}
static void run() {
  auto &m = mc::ctx().mode;
  if (m == "coef") coef(); else if (m == "op") op(); else if (m == "label") label(); else mat();
}
static void rep(const string &s) {
  only = s; auto &m = mc::ctx().mode;
  if (m == "label") { vector<int> h; stringstream ss(s.substr(2)); string f; while (getline(ss, f, ',')) if (!f.empty()) h.push_back(stoi(f)); one_label(h, s[1] == 's'); return; }
  if (m == "mat") {
    int n = s[2] - '0', k = s[3] - '0', mm = s[4] - '0'; vector<int> t, f; bool second = false;
    for (size_t i = 5; i < s.size(); i++) { if (s[i] == '_') second = true; else (second ? f : t).push_back(s[i] - '0'); }
    one_mat(n, k, mm, t, f, s[1] == 'c'); return;
  }
  run();
}
int main(int argc, char **argv) { mc::mute_all(); return mc::main_driver(argc, argv, run, rep); }
