// Exhaustive exploration of the finite-state-automaton MPO generator.
//   mode expand   : every history of term additions up to a bound; the generated matrices,
//                   multiplied out, must be exactly the sum of the added terms.
//   mode compress : the same histories; the compressed matrices must multiply out to the
//                   same sum and have no bond larger than the uncompressed ones.
// Oracle: an independent noncommutative polynomial (operator string -> coefficient).
// Coefficients are evaluated under a Kronecker substitution (1, 2^20, 2^60 mod 2^128), so
// equality of the numbers is equality of the symbolic coefficients in the bounded range.
#include "mc.h"
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
#include <algorithm>
using namespace std;
typedef unsigned __int128 u128;

struct Term { int h, t; int coef; int coefpos; vector<int> ops; };

static u128 coef_val(long l) { return l == 0 ? (u128) 1 : (u128) 1 << (l == 1 ? 20 : (l == 2 ? 60 : 90)); }

typedef vector<pair<uint32_t, u128>> Poly;   // sorted by string code
static void norm(Poly &p) {
  sort(p.begin(), p.end(), [](auto &a, auto &b) { return a.first < b.first; });
  Poly r;
  for (auto &x : p) { if (!r.empty() && r.back().first == x.first) r.back().second += x.second; else r.push_back(x); }
  Poly q; for (auto &x : r) if (x.second != 0) q.push_back(x);
  p.swap(q);
}
static string show(const Poly &p, int N) {
  string s;
  for (auto &x : p) {
    s += "[";
    for (int i = 0; i < N; i++) s += to_string((x.first >> (3 * i)) & 7);
    s += "]*" + to_string((unsigned long long) (x.second & 0xfffff)) + "/" + to_string((unsigned long long) ((x.second >> 20) & 0xffffffffffull)) + "a/" +
        to_string((unsigned long long) (x.second >> 60)) + "b ";
  }
  return s.empty() ? "0" : s;
}

struct Setup { int N; vector<int> ids; vector<Term> terms; };

static string enc(const Setup &s) {
  string o = "N" + to_string(s.N) + "/";
  for (int i : s.ids) o += to_string(i);
  for (auto &t : s.terms) {
    o += "/" + to_string(t.h) + to_string(t.t) + to_string(t.coef) + to_string(t.coefpos) + ":";
    for (int x : t.ops) o += to_string(x);
  }
  return o;
}
static Setup dec(const string &str) {
  Setup s; stringstream ss(str); string f; getline(ss, f, '/'); s.N = atoi(f.c_str() + 1);
  getline(ss, f, '/'); for (char c : f) s.ids.push_back(c - '0');
  while (getline(ss, f, '/')) {
    Term t; t.h = f[0] - '0'; t.t = f[1] - '0'; t.coef = f[2] - '0'; t.coefpos = f[3] - '0';
    for (size_t i = 5; i < f.size(); i++) t.ops.push_back(f[i] - '0');
    s.terms.push_back(t);
  }
  return s;
}

static Poly expected(const Setup &s) {
  Poly p;
  for (auto &t : s.terms) {
    uint32_t code = 0;
    for (int i = 0; i < s.N; i++) { uint32_t l = (i < t.h || i > t.t) ? s.ids[i] : t.ops[i - t.h]; code |= l << (3 * i); }
    p.push_back({code, coef_val(t.coef)});
  }
  norm(p);
  return p;
}

template<typename MV>
static bool expand(const MV &mats, int N, Poly &out, string &err) {
  if ((int) mats.size() != N) { err = "number of site matrices differs from number of sites"; return false; }
  vector<Poly> cur(1); cur[0].push_back({0, 1});
  for (int i = 0; i < N; i++) {
    auto &m = mats[i];
    if (m.rows != cur.size()) { err = "neighbouring matrices do not chain at site " + to_string(i); return false; }
    vector<Poly> nxt(m.cols);
    for (size_t r = 0; r < m.rows; r++) for (size_t c = 0; c < m.cols; c++) {
      OpRepr op = m(r, c);
      auto labs = op.GetOpLabelList(); auto cfs = op.GetCoefReprList();
      for (size_t k = 0; k < labs.size(); k++) {
        u128 v = 0; for (auto l : cfs[k].GetCoefLabelList()) v += coef_val(l);
        for (auto &x : cur[r]) nxt[c].push_back({x.first | ((uint32_t) labs[k] << (3 * i)), x.second * v});
      }
    }
    for (auto &p : nxt) norm(p);
    cur.swap(nxt);
  }
  if (cur.size() != 1) { err = "last matrix does not have exactly one column"; return false; }
  out = cur[0];
  return true;
}

static bool has_dup(const Setup &s) {
  for (size_t i = 0; i < s.terms.size(); i++) for (size_t j = 0; j < i; j++) {
    auto &a = s.terms[i], &b = s.terms[j];
    if (a.h == a.t && b.h == b.t && a.h == b.h) return true;
  }
  return false;
}

static void one(const Setup &s, bool compress) {
  auto &C = mc::ctx();
  string id = enc(s);
  C.begin_case(id);
  vector<OpRepr> ids; for (int l : s.ids) ids.push_back(OpRepr(l));
  // both ways of constructing: the identities default to the label 0
  FSM fsm = std::all_of(s.ids.begin(), s.ids.end(), [](int l) { return l == 0; }) ? FSM(s.N) : FSM(s.N, ids);
  if (fsm.phys_size() != size_t(s.N) || fsm.fsm_size() != size_t(s.N) + 1) { C.violate("expand-shape", id, "size"); return; }
  for (auto &t : s.terms) {
    OpReprVec ops;
    for (size_t k = 0; k < t.ops.size(); k++)
      ops.push_back((int) k == t.coefpos && t.coef ? OpRepr(CoefRepr(t.coef), t.ops[k]) : OpRepr(t.ops[k]));
    fsm.AddPath(t.h, t.t, ops);
    C.transitions++;
  }
  auto mats = fsm.GenMatRepr();
  C.evaluations++; C.traces_validated++;
  Poly want = expected(s), got; string err;
  string cls = "terms=" + to_string(s.terms.size()) + (has_dup(s) ? " onsite-repeat" : "");
  if (!compress) {
    if (!expand(mats, s.N, got, err)) { C.violate("expand-shape", id, err); return; }
    if (got != want) { C.violate("expand-sum", id, "matrices multiply out to " + show(got, s.N) + " but the added terms sum to " + show(want, s.N)); return; }
    // generation is a pure query: a second call gives the same matrices
    Poly again;
    if (!expand(fsm.GenMatRepr(), s.N, again, err) || again != want) C.violate("expand-repeat", id, "second generation differs");
    C.states++;
    C.outcome(cls + " distinct-strings=" + to_string(want.size()));
  } else {
    auto comp = fsm.GenCompressedMatRepr();
    C.transitions++;
    if (!expand(comp, s.N, got, err)) { C.violate("compress-shape", id, err); return; }
    Poly base;
    bool bok = expand(mats, s.N, base, err);
    if (!bok) return;                       // reported by the expand exploration
    if (got != base) { C.violate("compress-sum", id, "compressed matrices multiply out to " + show(got, s.N) + " but the uncompressed ones to " + show(base, s.N)); return; }
    bool smaller = false;
    for (int i = 0; i < s.N; i++) {
      if (comp[i].rows > mats[i].rows || comp[i].cols > mats[i].cols) { C.violate("compress-grew", id, "bond enlarged at site " + to_string(i)); return; }
      if (comp[i].cols < mats[i].cols) smaller = true;
    }
    // identical tails/heads must be merged: r>=2 two-site terms A_i B_j with one common B_j
    C.states++;
    C.outcome(cls + (smaller ? " reduced" : " already-minimal"));
  }
}

static vector<Term> alphabet(int N, const vector<int> &ops, const vector<int> &coefs, int maxlen) {
  vector<Term> a;
  for (int h = 0; h < N; h++) for (int t = h; t < N && t - h + 1 <= maxlen; t++) {
    int L = t - h + 1; long tot = 1; for (int i = 0; i < L; i++) tot *= ops.size();
    for (long x = 0; x < tot; x++) for (int c : coefs) {
      Term T; T.h = h; T.t = t; T.coef = c; T.coefpos = 0; long y = x;
      for (int i = 0; i < L; i++) { T.ops.push_back(ops[y % ops.size()]); y /= ops.size(); }
      a.push_back(T);
    }
  }
  return a;
}
// pair terms A_i B_j with strings of `fill` in between
static vector<Term> pairs(int N, const vector<pair<int, int>> &kinds, const vector<int> &coefs, int fill) {
  vector<Term> a;
  for (int i = 0; i < N; i++) for (int j = i + 1; j < N; j++) for (auto &k : kinds) for (int c : coefs) {
    Term T; T.h = i; T.t = j; T.coef = c; T.coefpos = 0; T.ops.push_back(k.first);
    for (int m = i + 1; m < j; m++) T.ops.push_back(fill);
    T.ops.push_back(k.second); a.push_back(T);
  }
  return a;
}
static vector<Term> onsite(int N, const vector<int> &ops, const vector<int> &coefs) {
  vector<Term> a;
  for (int i = 0; i < N; i++) for (int o : ops) for (int c : coefs) { Term T; T.h = T.t = i; T.coef = c; T.coefpos = 0; T.ops = {o}; a.push_back(T); }
  return a;
}

static void sequences(int N, const vector<int> &ids, const vector<Term> &al, int k, bool compress) {
  auto &C = mc::ctx();
  vector<size_t> ix(k, 0);
  Setup s; s.N = N; s.ids = ids;
  while (true) {
    if (C.mine()) {
      s.terms.clear();
      for (int i = 0; i < k; i++) s.terms.push_back(al[ix[i]]);
      if (C.samples.size() < 3 && ix[k - 1] == al.size() / 2) C.sample(enc(s));
      one(s, compress);
    }
    int p = k - 1;
    while (p >= 0 && ++ix[p] == al.size()) ix[p--] = 0;
    if (p < 0) break;
  }
  C.info["histories N=" + to_string(N) + " ids=" + enc(Setup{N, ids, {}}) + " alphabet=" + to_string(al.size())] = "all sequences of length " + to_string(k);
}
static void subsets(int N, const vector<int> &ids, const vector<Term> &al, bool compress) {
  auto &C = mc::ctx();
  Setup s; s.N = N; s.ids = ids;
  for (uint64_t m = 1; m < (1ull << al.size()); m++) {
    if (!C.mine()) continue;
    s.terms.clear();
    for (size_t i = 0; i < al.size(); i++) if (m >> i & 1) s.terms.push_back(al[i]);
    one(s, compress);
  }
  C.info["subsets N=" + to_string(N) + " of " + to_string(al.size()) + " terms"] = "all nonempty subsets";
}
template<class T> static vector<T> cat(vector<T> a, const vector<T> &b) { a.insert(a.end(), b.begin(), b.end()); return a; }

static void run() {
  auto &C = mc::ctx();
  bool comp = C.mode == "compress";
  auto Z = [](int n) { return vector<int>(n, 0); };
  auto I = [](int n) { vector<int> v(n, 0); for (int i = 1; i < n; i += 2) v[i] = 5; return v; };   // two kinds of local identity
  for (int k = 1; k <= 4; k++) sequences(1, Z(1), alphabet(1, {0, 1, 2}, {0, 1, 2}, 1), k, comp);
  for (int k = 1; k <= 3; k++) sequences(2, Z(2), alphabet(2, {0, 1, 2}, {0, 1, 2}, 2), k, comp);
  sequences(2, I(2), alphabet(2, {1, 2, 5}, {0, 1}, 2), 3, comp);
  for (int k = 1; k <= 2; k++) sequences(3, Z(3), alphabet(3, {0, 1, 2}, {0, 1, 2}, 3), k, comp);
  sequences(3, I(3), alphabet(3, {0, 1, 2}, {0, 1, 2}, 3), 2, comp);
  sequences(3, Z(3), alphabet(3, {1, 2}, {0, 1}, 3), 3, comp);
  sequences(4, Z(4), alphabet(4, {1, 2}, {0, 1, 2}, 4), 2, comp);
  sequences(3, I(3), cat(pairs(3, {{1, 1}, {1, 2}, {2, 1}}, {0, 1, 2}, 3), onsite(3, {1, 2}, {0, 1})), 3, comp);
  subsets(4, Z(4), cat(pairs(4, {{1, 2}}, {0, 1}, 0), onsite(4, {1}, {1})), comp);          // 16 terms
  subsets(4, I(4), cat(pairs(4, {{1, 2}, {2, 1}}, {0}, 3), onsite(4, {1}, {1})), comp);     // 16 terms
  subsets(4, Z(4), cat(pairs(4, {{1, 1}}, {0, 1, 2}, 0), vector<Term>{}), comp);            // 18 terms
  subsets(5, Z(5), cat(pairs(5, {{1, 2}}, {1}, 0), onsite(5, {1}, {2})), comp);             // 15 terms
  if (C.thorough()) {
    sequences(3, Z(3), alphabet(3, {0, 1, 2}, {0, 1, 2}, 3), 3, comp);
    sequences(2, Z(2), alphabet(2, {0, 1, 2}, {0, 1, 2}, 2), 4, comp);
    sequences(3, Z(3), alphabet(3, {1, 2}, {0, 1}, 3), 4, comp);
    sequences(4, Z(4), alphabet(4, {1, 2}, {0, 1}, 4), 3, comp);
    subsets(5, Z(5), pairs(5, {{1, 2}, {2, 1}}, {1}, 3), comp);                             // 20 terms
    subsets(4, Z(4), cat(pairs(4, {{1, 2}, {1, 1}}, {0, 1}, 0), vector<Term>{}), comp);     // 24 terms
  }
}
int main(int argc, char **argv) {
  mc::mute_all();
  return mc::main_driver(argc, argv, run, [](const string &r) { one(dec(r), mc::ctx().mode == "compress"); });
}
