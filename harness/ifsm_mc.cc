// Exhaustive exploration of the infinite (unit-cell) automaton generator.
// Every sequence of distinct terms up to a bound; the unit-cell matrices, repeated over a finite
// window and read from the ready state to the final state, must be the sum of all translates of
// the added terms that fit into the window.
#include "mc.h"
#include "qlmps/one_dim_tn/mpo/mpogen/ifsm.h"
#include <algorithm>
using namespace std;
typedef unsigned __int128 u128;
typedef map<vector<int>, u128> Poly;
static u128 cvl(long l) { return l == 0 ? (u128) 1 : (u128) 1 << (l == 1 ? 20 : 60); }
struct T { int head; vector<int> ops; int coef; bool operator==(const T &o) const { return head == o.head && ops == o.ops && coef == o.coef; } };
static string enc(int n, const vector<int> &ids, const vector<T> &h) {
  string s = to_string(n) + "/"; for (int i : ids) s += to_string(i);
  for (auto &t : h) { s += "/" + to_string(t.head) + to_string(t.coef) + ":"; for (int o : t.ops) s += to_string(o); }
  return s;
}
static void one(int n, const vector<int> &ids, const vector<T> &h) {
  auto &C = mc::ctx(); string id = enc(n, ids, h); C.begin_case(id);
  vector<OpRepr> idops; for (int i : ids) idops.push_back(OpRepr(i));
  C.evaluations++; C.traces_validated++;
  SparOpReprMatVec W;
  try {
    iFSM f(n, idops);
    for (auto &t : h) {
      OpReprVec v; for (size_t i = 0; i < t.ops.size(); i++) v.push_back(i == 0 && t.coef ? OpRepr(CoefRepr(t.coef), t.ops[i]) : OpRepr(t.ops[i]));
      f.AddPath(t.head, v); C.transitions++;
    }
    if ((int) f.unit_cell_length() != n) { C.violate("ifsm-shape", id, "unit cell length"); return; }
    W = f.GenMatRepr();
  } catch (const exception &e) { C.violate("ifsm-throw", id, string("adding a legal term throws: ") + e.what()); return; }
  if ((int) W.size() != n) { C.violate("ifsm-shape", id, "one matrix per unit-cell site expected"); return; }
  int longest = 2; for (auto &t : h) longest = max(longest, (int) t.ops.size());
  for (int start = 0; start < n; start++) {
    int M = longest + n - 1;
    vector<Poly> cur(W[start].rows); cur[0][{}] = 1;
    for (int i = 0; i < M; i++) {
      auto &m = W[(start + i) % n];
      if (m.rows != cur.size()) { C.violate("ifsm-shape", id, "unit-cell matrices do not chain"); return; }
      vector<Poly> nx(m.cols);
      for (size_t r = 0; r < m.rows; r++) for (size_t c = 0; c < m.cols; c++) {
        OpRepr e = m(r, c); auto l = e.GetOpLabelList(); auto cf = e.GetCoefReprList();
        for (size_t k = 0; k < l.size(); k++) { u128 v = 0; for (auto x : cf[k].GetCoefLabelList()) v += cvl(x); for (auto &p : cur[r]) { auto s = p.first; s.push_back(l[k]); nx[c][s] += p.second * v; } }
      }
      cur.swap(nx);
    }
    Poly want;
    for (auto &t : h) for (int p = 0; p + (int) t.ops.size() <= M; p++) if ((start + p) % n == t.head % n) {
      vector<int> s; for (int i = 0; i < M; i++) s.push_back(i < p || i >= p + (int) t.ops.size() ? ids[(start + i) % n] : t.ops[i - p]);
      want[s] += cvl(t.coef);
    }
    if (cur.back() != want) { C.violate("ifsm-sum", id, "window of " + to_string(M) + " sites from cell site " + to_string(start) + " is not the sum of the translated terms"); return; }
    // nothing but the identity stays ready / final
    vector<int> idw; for (int i = 0; i < M; i++) idw.push_back(ids[(start + i) % n]);
    if (cur[0] != Poly{{idw, 1}}) { C.violate("ifsm-ready", id, "ready state does not propagate as the identity"); return; }
    C.states++;
  }
  size_t b = 0; for (auto &m : W) b = max(b, m.cols);
  C.outcome("terms=" + to_string(h.size()) + " bond=" + to_string(b));
}
static vector<T> alpha(int n, const vector<int> &ops, const vector<int> &coefs, int minl, int maxl) {
  vector<T> a;
  for (int hd = 0; hd < n; hd++) for (int l = minl; l <= maxl; l++) {
    int tot = 1; for (int i = 0; i < l; i++) tot *= ops.size();
    for (int x = 0; x < tot; x++) for (int c : coefs) { T t{hd, {}, c}; int y = x; for (int i = 0; i < l; i++) { t.ops.push_back(ops[y % ops.size()]); y /= ops.size(); } a.push_back(t); }
  }
  return a;
}
static void seqs(int n, const vector<int> &ids, const vector<T> &al, int k) {
  auto &C = mc::ctx(); vector<size_t> ix(k, 0);
  while (true) {
    bool dist = true; for (int i = 0; i < k; i++) for (int j = 0; j < i; j++) if (ix[i] == ix[j]) dist = false;
    if (dist && C.mine()) { vector<T> h; for (auto i : ix) h.push_back(al[i]); if (C.samples.size() < 2) C.sample(enc(n, ids, h)); one(n, ids, h); }
    int p = k - 1; while (p >= 0 && ++ix[p] == al.size()) ix[p--] = 0; if (p < 0) break;
  }
  C.info["n=" + to_string(n) + " ids=" + to_string(ids[0]) + " alphabet=" + to_string(al.size())] = "all orderings of " + to_string(k) + " distinct terms";
}
static void run() {
  bool t = mc::ctx().thorough();
  seqs(1, {0}, alpha(1, {1, 2}, {0, 1}, 2, 3), 1); seqs(1, {0}, alpha(1, {1, 2}, {0, 1}, 2, 3), 2); seqs(1, {0}, alpha(1, {1, 2}, {0, 1}, 2, 3), t ? 4 : 3);
  seqs(2, {0, 5}, alpha(2, {1, 2}, {0, 1}, 2, 3), 2); seqs(2, {0, 5}, alpha(2, {1, 2}, {0}, 2, 3), t ? 4 : 3);
  seqs(2, {0, 0}, alpha(2, {1, 2}, {0}, 2, 4), 2); seqs(3, {0, 5, 0}, alpha(3, {1, 2}, {0}, 2, 3), 2);
  seqs(2, {0, 5}, alpha(2, {1}, {0, 1}, 2, 6), 3); seqs(4, {0, 5, 0, 0}, alpha(4, {1, 2}, {0}, 2, 2), 3);
  seqs(3, {0, 0, 5}, alpha(3, {1}, {0, 1}, 2, 5), 3);
  if (t) { seqs(3, {0, 5, 0}, alpha(3, {1, 2}, {0}, 2, 3), 3); seqs(2, {0, 0}, alpha(2, {1, 2}, {0}, 2, 4), 3); seqs(1, {0}, alpha(1, {1, 2, 3}, {0}, 2, 3), 3); }
}
static void rep(const string &s) {
  stringstream ss(s); string f; getline(ss, f, '/'); int n = stoi(f); getline(ss, f, '/'); vector<int> ids; for (char c : f) ids.push_back(c - '0');
  vector<T> h; while (getline(ss, f, '/')) { T t; t.head = f[0] - '0'; t.coef = f[1] - '0'; for (size_t i = 3; i < f.size(); i++) t.ops.push_back(f[i] - '0'); h.push_back(t); }
  one(n, ids, h);
}
int main(int argc, char **argv) { mc::mute_all(); return mc::main_driver(argc, argv, run, rep); }
