"""Specifications of the seeded bugs (see plant.py)."""
BUGS = {}
P = "include/qlmps/one_dim_tn/mpo/mpogen/"
FSM, ALG, SPM, IFSM = P + "fsm.h", P + "symb_alg/coef_op_alg.h", P + "symb_alg/sparse_mat.h", P + "ifsm.h"
DUO = "include/qlmps/one_dim_tn/framework/duovector.h"
CPP = "include/qlmps/case_params_parser.h"
MEM = "include/qlmps/memory_monitor.h"


def bug(i, prop, edits, demo, needs, breaks, **kw):
    BUGS[i] = dict(property=prop, edits=edits, demo=demo, needs=needs, breaks=breaks, **kw)


# a small independent expansion of the generated matrices
EXPAND = r'''
#include <map>
#include <vector>
#include <cstdio>
#include <string>
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
typedef std::map<std::vector<long>, long> Poly;     // operator string -> value (coefficient label l = 10^l)
static long CoefVal(const CoefRepr &c) { long v = 0; for (auto l : c.GetCoefLabelList()) { long p = 1; while (l-- > 0) p *= 1000; v += p; } return v; }
static Poly Expand(const SparOpReprMatVec &ms) {
  std::vector<Poly> v(1); v[0][{}] = 1;
  for (auto &m : ms) { std::vector<Poly> w(m.cols);
    for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) { OpRepr o = m(i, j);
      auto cs = o.GetCoefReprList(); auto ls = o.GetOpLabelList();
      for (size_t k = 0; k < ls.size(); ++k) for (auto &t : v[i]) { auto s = t.first; s.push_back(ls[k]); w[j][s] += t.second * CoefVal(cs[k]); } }
    v = w; }
  return v[0]; }
'''

bug("F01c", "F01", [(FSM, "      fsm_path.op_reprs[i] = id_ops_[i];", "      fsm_path.op_reprs[i] = id_ops_[i < head_ntrvl_site_idx ? i : tail_ntrvl_site_idx];")],
    EXPAND + r'''
int main() {
  std::vector<OpRepr> ids = {OpRepr(0), OpRepr(0), OpRepr(9)};
  FSM f(3, ids);
  f.AddPath(0, 1, {OpRepr(1), OpRepr(2)});
  Poly p = Expand(f.GenMatRepr()), q; q[{1, 2, 9}] = 1;
  return p == q ? 0 : 1;
}''', "sites with different identity operators and a term that ends before the change", "sites behind a term get another site's identity")
bug("F04a", "F04", [(ALG, "      if (coef1 != coef) {\n        return std::make_pair(kIdCoefRepr, OpRepr(op_repr));", "      if (coef < coef1) {\n        return std::make_pair(kIdCoefRepr, OpRepr(op_repr));")],
    r'''
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
int main() {
  OpRepr o({CoefRepr(2), CoefRepr(1)}, {1, 2});
  auto p = SeparateCoefAndBase(o);
  return p.first == kIdCoefRepr && p.second == o ? 0 : 1;
}''', "an operator whose first summand has the larger coefficient", "a common coefficient is split off though the summands have different ones")
bug("F04b", "F04", [(ALG, "    return std::is_permutation(coef_label_list_.begin(), coef_label_list_.end(),\n                               rhs.coef_label_list_.begin(), rhs.coef_label_list_.end());",
                     "    if (coef_label_list_.size() != rhs.coef_label_list_.size()) { return false; }\n    for (const auto &label : coef_label_list_) {\n      if (std::find(rhs.coef_label_list_.begin(), rhs.coef_label_list_.end(), label) == rhs.coef_label_list_.end()) { return false; }\n    }\n    return true;")],
    r'''
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
int main() {
  CoefRepr a(std::vector<CNumberLabel>{1, 1, 2}), b(std::vector<CNumberLabel>{1, 2, 2});
  return a == b || b == a ? 1 : 0;
}''', "coefficients with repeated summands", "a+a+b and a+b+b are taken for equal")
bug("F05a", "F05", [(FSM, "    if (poss_it == conv_obj_hub_.cend()) {\n      conv_obj_hub_.push_back(conv_obj);\n      size_t label = conv_obj_hub_.size() - 1;",
                     "    if (poss_it == conv_obj_hub_.cend()) {\n      size_t label = conv_obj_hub_.size();\n      if (label > 0 && -conv_obj == conv_obj_hub_.back()) {\n        conv_obj_hub_.insert(conv_obj_hub_.begin() + label - 1, conv_obj);\n      } else {\n        conv_obj_hub_.push_back(conv_obj);\n      }")],
    r'''
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
int main() {
  LabelConvertor<double> c(1.0);
  size_t a = c.Convert(2.5), b = c.Convert(-2.5);
  auto m = c.GetLabelObjMapping();
  return c.Convert(2.5) == a && c.Convert(-2.5) == b && m[a] == 2.5 && m[b] == -2.5 ? 0 : 1;
}''', "an object requested directly after its negative", "labels handed out earlier change their meaning")
bug("C01a", "C01", [(DUO, """    for (auto &rpelem : raw_data_) {
      if (rpelem != nullptr) {
        delete rpelem;
      }
    }
    const size_t N = rhs.size();
    raw_data_ = std::vector<ElemT *>(N, nullptr);
    for (size_t i = 0; i < N; ++i) {
      if (rhs(i) != nullptr) {
        raw_data_[i] = new ElemT(rhs[i]);
      }
    }
    return *this;""", """    const size_t N = rhs.size();
    for (size_t i = N; i < raw_data_.size(); ++i) { dealloc(i); }
    raw_data_.resize(N, nullptr);
    for (size_t i = 0; i < N; ++i) {
      if (rhs(i) == nullptr) { continue; }
      if (raw_data_[i] != nullptr) {
        *raw_data_[i] = rhs[i];
      } else {
        raw_data_[i] = new ElemT(rhs[i]);
      }
    }
    return *this;""")],
    r'''
#include "qlmps/one_dim_tn/framework/duovector.h"
int main() {
  qlmps::DuoVector<int> a(2), b(2);
  a[0] = 1; a[1] = 2; b[1] = 3;
  a = b;
  return a(0) == nullptr && a[1] == 3 ? 0 : 1;
}''', "assigning a vector with an empty place to one that has an element there", "the old element survives the assignment")
bug("C01b", "C01", [(DUO, "    if (raw_data_[idx] != nullptr) {\n      delete raw_data_[idx];\n    }\n    raw_data_[idx] = new ElemT;", "    if (raw_data_[idx] == nullptr) {\n      raw_data_[idx] = new ElemT;\n    } else {\n      *raw_data_[idx] = ElemT(*raw_data_[idx]);\n    }")],
    r'''
#include "qlmps/one_dim_tn/framework/duovector.h"
struct E { int v = 7; };
int main() {
  qlmps::DuoVector<E> a(1);
  a.alloc(0); a[0].v = 1; a.alloc(0);
  return a[0].v == 7 ? 0 : 1;
}''', "allocating a place that already has an element", "the old value is kept")
bug("C02a", "C02", [(CPP, "    if (!Has(item)) return default_value;\n    return ParseBool(item);", "    bool value = default_value;\n    TryParseBool(item, value);\n    return value;")],
    r'''
#include "qlmps/case_params_parser.h"
#include <sys/wait.h>
#include <unistd.h>
int main() {
  { std::ofstream o("p.json"); o << "{\"CaseParams\": {\"b\": \"true\"}}"; }
  pid_t p = fork();
  if (p == 0) { qlmps::CaseParamsParserBasic c("p.json"); c.ParseBoolOr("b", false); _exit(0); }
  int st; waitpid(p, &st, 0);
  return WIFEXITED(st) && WEXITSTATUS(st) == 1 ? 0 : 1;
}''', "a boolean parameter of the wrong type read with a default", "the default silently replaces a mistyped value")
bug("C02b", "C02", [(CPP, """      std::vector<size_t> parsed;
      parsed.reserve(value.size());
""", """      auto &parsed = out_value;
      parsed.clear();
      parsed.reserve(value.size());
"""), (CPP, "      out_value = std::move(parsed);\n      return true;", "      return true;")],
    r'''
#include "qlmps/case_params_parser.h"
int main() {
  { std::ofstream o("p.json"); o << "{\"CaseParams\": {\"v\": [1, 2, -3]}}"; }
  qlmps::CaseParamsParserBasic c("p.json");
  std::vector<size_t> v = {7};
  bool ok = c.TryParseSizeTVec("v", v);
  return !ok && v == std::vector<size_t>{7} ? 0 : 1;
}''', "an array with a bad element read with the trying accessor", "the output is changed though the call fails")
bug("C03a", "C03", [(MEM, "        free_gb = (memInfo.freeram + memInfo.bufferram) * memInfo.mem_unit / GB_;", "        free_gb = (memInfo.freeram * memInfo.mem_unit + memInfo.bufferram) / GB_;")],
    r'''
#define sysinfo fake_sysinfo_type
#undef sysinfo
#include <sys/sysinfo.h>
static int FakeSysinfo(struct sysinfo *s) { *s = {}; s->totalram = 8 << 20; s->freeram = 1 << 20; s->bufferram = 1 << 20; s->mem_unit = 4096; return 0; }
extern "C" int sysinfo(struct sysinfo *s) __THROW { return FakeSysinfo(s); }
#include "qlmps/memory_monitor.h"
#include <cmath>
int main() { qlmps::MemoryMonitor m; double f, u, t; m.GetMemoryInfo(f, u, t); return std::fabs(f - 8.0) < 1e-9 && std::fabs(t - 32.0) < 1e-9 ? 0 : 1; }''',
    "a system that reports memory in units larger than a byte", "buffers are counted in the wrong unit")

bug("F01b", "F01", [(ALG, "        that_coef_repr += iter->second;", "        if (that_coef_repr != iter->second) { that_coef_repr += iter->second; }")],
    EXPAND + r'''
int main() {
  FSM f(2, std::vector<OpRepr>(2, OpRepr(0)));
  f.AddPath(1, 1, {OpRepr(CoefRepr(1), 1)});
  f.AddPath(0, 1, {OpRepr(2), OpRepr(3)});
  f.AddPath(1, 1, {OpRepr(CoefRepr(1), 1)});
  Poly p = Expand(f.GenMatRepr()), q; q[{0, 1}] = 2000; q[{2, 3}] = 1;
  return p == q ? 0 : 1;
}''', "the same on-site term added twice", "the second addition of an equal on-site term has no effect")
bug("F02c", "F02", [(ALG, "        trans_mat.SetElem(i + deleted_row_size, j, cmb[j]);", "        trans_mat.SetElem(i + deleted_row_size, j, cmb[j] == kNullCoefRepr || deleted_row_size < 2 ? cmb[j] : kIdCoefRepr);")],
    EXPAND + r'''
int main() {
  SparOpReprMat l(1, 5), t(5, 2), r(2, 1);
  for (int i = 0; i < 5; ++i) l.SetElem(0, i, OpRepr(i + 1));
  r.SetElem(0, 0, OpRepr(8)); r.SetElem(1, 0, OpRepr(9));
  t.SetElem(0, 0, OpRepr(1)); t.SetElem(1, 1, OpRepr(2)); t.SetElem(2, 0, OpRepr(1)); t.SetElem(3, 1, OpRepr(2));
  t.SetElem(4, 0, OpRepr(CoefRepr(1), 1)); t.SetElem(4, 1, OpRepr(CoefRepr(2), 2));
  SparOpReprMatVec a = {l, t, r}, b = a;
  SparOpReprMatRowCompresser(b[1], b[0]);
  return Expand(a) == Expand(b) ? 0 : 1;
}''', "three or more rows deleted from one matrix, the third a combination with coefficients", "the coefficients of the third deleted row are lost")
bug("F03a", "F03", [(SPM, '''    if (rows != rhs.rows) {
      std::cout << "No same rows!" << std::endl;
      return false;
    }
    if (cols != rhs.cols) {
      std::cout << "No same cols!" << std::endl;
      return false;
    }''', '''    if (indexes.size() != rhs.indexes.size()) {
      std::cout << "No same size!" << std::endl;
      return false;
    }''')],
    r'''
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
int main() { return SparCoefReprMat(2, 3) == SparCoefReprMat(3, 2) ? 1 : 0; }
''', "comparing matrices of different shapes with the same number of elements", "matrices of different shape compare equal")
bug("F03d", "F03", [(ALG, "    for (size_t i = 0; i < cols; ++i) {\n      sorted_col_idxs[i] = mapping[i].second;\n    }\n    TransposeCols(sorted_col_idxs);", "    for (size_t i = 0; i < cols; ++i) {\n      sorted_col_idxs[i] = mapping[i].second;\n    }\n    if (sorted_col_idxs.front() != 0 || sorted_col_idxs.back() + 1 != cols) { TransposeCols(sorted_col_idxs); }")],
    r'''
#include "qlmps/one_dim_tn/mpo/mpogen/fsm.h"
int main() {
  SparOpReprMat m(3, 4);
  m.SetElem(0, 1, OpRepr(1)); m.SetElem(1, 1, OpRepr(1)); m.SetElem(0, 2, OpRepr(2));
  for (int i = 0; i < 3; ++i) m.SetElem(i, 3, OpRepr(3));
  m.SortCols();
  return m(0, 1) == OpRepr(2) && m(0, 2) == OpRepr(1) ? 0 : 1;
}''', "a matrix of four or more columns whose first and last column are in place but inner ones are not", "inner columns stay unsorted while the reported permutation moves them")


# ---------------------------------------------------------------- tensor networks (on the tensor-library stand-in)
Q = "include/qlmps/"
MPOGEN, OPSH, OPST = P + "mpogen_impl.h", Q + "model_relevant/operators/fermion/hubbard_operators.h", Q + "model_relevant/operators/fermion/tJ_operators.h"
FMPO, FMPS = Q + "one_dim_tn/mpo/finite_mpo/finite_mpo.h", Q + "one_dim_tn/mps/finite_mps/finite_mps.h"
FINIT, FDISK = Q + "one_dim_tn/mps/finite_mps/finite_mps_init.h", Q + "one_dim_tn/mps/finite_mps/finite_mps_measu_disk.h"
DI, DG = Q + "algorithm/dmrg/dmrg_init.h", Q + "algorithm/dmrg/dmrg_impl.h"
SINGLE, LANC, EXPMV = Q + "algorithm/vmps/single_site_update_finite_vmps_impl.h", Q + "algorithm/vmps/lanczos_vmps_solver_impl.h", Q + "algorithm/tdvp/lanczos_expmv_solver_impl.h"
TDVP, MPISL = Q + "algorithm/tdvp/two_site_update_finite_tdvp_impl.h", Q + "algo_mpi/vmps/lanczos_solver_mpi_slave.h"
SH = dict(flags='-I "$d/shim" -I/usr/include/eigen3', files=["shim", "harness/tn.h", "harness/mc.h"])
HEAD = r"""
#include "tn.h"
#include "qlmps/site_vec.h"
#include "qlmps/one_dim_tn/mps_all.h"
#include "qlmps/one_dim_tn/mpo/mpogen/mpogen.h"
#include "qlmps/model_relevant/sites/model_site_base.h"
#include "qlmps/model_relevant/operators/operators_all.h"
using namespace qlmps; using namespace qlten; using special_qn::U1QN; using special_qn::U1U1QN; using tn::Mat; using tn::Vec;
typedef QLTensor<double, U1QN> T;
static std::vector<size_t> D(size_t n, size_t d = 2) { return std::vector<size_t>(n, d); }
struct Quiet { Quiet() { std::cout.setstate(std::ios::failbit); } } quiet;
"""
HEIS = HEAD + r"""
#include "qlmps/algorithm/vmps/vmps_all.h"
#include "qlmps/algorithm/tdvp/tdvp_evolve_params.h"
#include "qlmps/algorithm/dmrg/dmrg.h"
template<typename E> struct Chain {
  sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<E, U1QN> o; SiteVec<E, U1QN> sv; MPO<QLTensor<E, U1QN>> mpo; MatReprMPO<QLTensor<E, U1QN>> mr; Mat h;
  Chain(size_t n) : sv(n, s.phys_bond_out), mpo(n) { MPOGenerator<E, U1QN> a(sv, U1QN()), b(sv, U1QN()); fill(a, n); fill(b, n); mpo = a.Gen(); mr = b.GenMatReprMPO(); h = tn::DenseMpo(mpo); }
  void fill(MPOGenerator<E, U1QN> &g, size_t n) { for (size_t i = 0; i + 1 < n; ++i) { double J = 1 + 0.2 * i; g.AddTerm(E(J), o.sz, i, o.sz, i + 1); g.AddTerm(E(J / 2), o.sp, i, o.sm, i + 1); g.AddTerm(E(J / 2), o.sm, i, o.sp, i + 1); } g.AddTerm(E(0.3), o.sz, 0); }
  FiniteMPS<E, U1QN> start() { FiniteMPS<E, U1QN> m(sv); std::vector<size_t> v(sv.size); for (size_t i = 0; i < v.size(); ++i) v[i] = i % 2; qlten::shim::Rng() = 17; std::vector<std::vector<size_t>> all = {v}; std::reverse(v.begin(), v.end()); if (sv.size % 2 == 0) all.push_back(v); ExtendDirectRandomInitMps(m, all, 2); m.Centralize(0); return m; }
  Vec disk() { FiniteMPS<E, U1QN> m(sv); for (size_t i = 0; i < m.size(); ++i) m.LoadTen(i, GenMPSTenName("mps", i)); return tn::DenseMps(std::as_const(m)); }
  double energy(const Vec &v) { double n = tn::Norm(v); return tn::Dot(v, h * v).real() / n / n; }
};
static FiniteVMPSSweepParams Sw(size_t sweeps, size_t d = 64, double err = 1e-12, size_t it = 100) { return FiniteVMPSSweepParams(sweeps, 1, d, 0.0, LanczosParams(err, it), std::string("mps"), std::string("tmp")); }
"""
bug("G01a", "G01", [(MPOGEN, "        local_ops.push_back(inst_ops[i]);\n        local_ops_idxs.push_back(j);", "        local_ops.push_back(inst_ops.front());\n        local_ops_idxs.push_back(j);")],
    HEAD + r"""
int main() {
  sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<double, U1QN> o; SiteVec<double, U1QN> sv(5, s.phys_bond_out);
  MPOGenerator<double, U1QN> g(sv, U1QN()); T x = o.sz, y = o.sz; y({0, 0}) = 3;
  g.AddTerm(1.0, std::vector<T>{o.sz, o.sz, o.sz}, {0, 2, 4}, std::vector<T>{x, y});
  auto m = g.Gen(); Mat a = tn::OpMat(o.sz), b = tn::OpMat(y);
  return tn::Diff(tn::DenseMpo(m), tn::Product(D(5), {{0, a}, {1, a}, {2, a}, {3, b}, {4, a}})) < 1e-12 ? 0 : 1;
}""", "a term of three or more physical operators with different insertion operators", "the first insertion operator is put between all physical operators", **SH)
bug("G01b", "G01", [(MPOGEN, """    std::transform(order_indices.begin(), order_indices.end(), sorted_local_ops.begin(),
                   [&](std::size_t i) { return local_ops[i]; });""", """    for (size_t k = 0; k < order_indices.size(); ++k) {
      sorted_local_ops[order_indices[k]] = local_ops[k];
    }""")],
    HEAD + r"""
int main() {
  sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<double, U1QN> o; SiteVec<double, U1QN> sv(4, s.phys_bond_out);
  T x = o.sz, y = o.sz, z = o.sz; y({0, 0}) = 3; z({1, 1}) = 7;
  MPOGenerator<double, U1QN> g(sv, U1QN()); g.AddTerm(1.0, std::vector<T>{x, y, z}, std::vector<size_t>{2, 3, 0}); g.AddTerm(0.5, o.sz, 1);
  auto m = g.Gen(); Mat a = tn::OpMat(x), b = tn::OpMat(y), c = tn::OpMat(z);
  return tn::Diff(tn::DenseMpo(m), tn::Product(D(4), {{0, c}, {2, a}, {3, b}}) + tn::cd(0.5) * tn::Product(D(4), {{1, a}})) < 1e-12 ? 0 : 1;
}""", "three or more operators given in a cyclically permuted order of sites", "the operators land on each other's sites", **SH)
bug("S01a", "S01", [(OPSH, "    Fbdna({double_occupy, spin_up}) = -1; ", "    Fbdna({double_occupy, spin_up}) = 1; ")],
    HEAD + r"""
int main() {
  sites::HubbardSite<U1U1QN> s; HubbardOperators<double, U1U1QN> o(s);
  return tn::Diff(tn::OpMat(o.Fbdna), tn::OpMat(o.f) * tn::OpMat(o.bdna)) < 1e-12 ? 0 : 1;
}""", "a hop that removes a spin-down electron from a doubly occupied site", "the composite operator F b_dn has the wrong sign on the doubly occupied state", **SH)
bug("S02a", "S02", [(OPST, "    t0 = CalcConj(t);", "    t0 = t;")],
    HEAD + r"""
typedef QLTEN_Complex C;
int main() {
  sites::tJSite<U1U1QN> s; tJOperators<C, U1U1QN> o(s); SiteVec<C, U1U1QN> sv(3, s.phys_bond_out);
  MPOGenerator<C, U1U1QN> a(sv, U1U1QN()), b(sv, U1U1QN()); C t(0.5, 0.75);
  AddTJHoppingTerms(a, t, 2, 0, o); AddTJHoppingTerms(b, std::conj(t), 0, 2, o);
  auto x = a.Gen(), y = b.Gen(); return tn::Diff(tn::DenseMpo(x), tn::DenseMpo(y)) < 1e-12 ? 0 : 1;
}""", "a complex hopping amplitude given with the larger site first", "the phase of the hopping is reversed", **SH)
bug("G02a", "G02", [(FMPO, "    TenVec<QLTensor<TenElemT, QNT>>::operator=(std::move(rhs));\n    center_ = rhs.center_;", "    TenVec<QLTensor<TenElemT, QNT>>::operator=(std::move(rhs));\n    std::swap(center_, rhs.center_);\n    center_ = (center_ < 0 ? rhs.center_ : center_);")],
    HEAD + r"""
#include "qlmps/one_dim_tn/mpo/finite_mpo/finite_mpo.h"
int main() {
  sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<double, U1QN> o; SiteVec<double, U1QN> sv(4, s.phys_bond_out);
  MPOGenerator<double, U1QN> g(sv, U1QN()); for (size_t i = 0; i + 1 < 4; ++i) g.AddTerm(1.0, o.sz, i, o.sz, i + 1);
  auto m = g.Gen(); FiniteMPO<double, U1QN> a(m), b(m); a.Centralize(2); a = std::move(b);
  return a.GetCenter() == kUncentralizedCenterIdx ? 0 : 1;
}""", "an MPO with a center that an uncentralized MPO is moved into", "the record of the center of the old contents survives", **SH)
bug("G03a", "G03", [(FMPS, "  size_t start_idx;\n  for (size_t i = 0; i <= stop_idx; ++i) {\n    start_idx = i;\n    if (tens_cano_type_[i] != MPSTenCanoType::LEFT) { break; }\n    if (i == stop_idx) { return; }    // All related tensors are left canonical, do nothing.\n  }",
                     "  size_t start_idx = stop_idx + 1;\n  // the tensors which are not left canonical yet end at stop_idx\n  while (start_idx > 0 && tens_cano_type_[start_idx - 1] != MPSTenCanoType::LEFT) { start_idx--; }\n  if (start_idx > stop_idx) { return; }    // All related tensors are left canonical, do nothing.")],
    HEAD + r"""
int main() {
  sites::SpinOneHalfSite<U1QN> s; SiteVec<double, U1QN> sv(4, s.phys_bond_out); FiniteMPS<double, U1QN> m(sv);
  ExtendDirectRandomInitMps(m, {{0, 1, 0, 1}, {1, 0, 1, 0}}, 2); m.Centralize(3); m[0] *= 2.0; m.Centralize(2);
  const auto &k = m; return tn::LeftDefect(k[0]) < 1e-10 && tn::LeftDefect(k[1]) < 1e-10 ? 0 : 1;
}""", "a tensor left of others that are still left-canonical is changed before the state is re-centered", "tensors in front of a left-canonical one stay as they are, so the center is false", **SH)
bug("G06a", "G06", [(FINIT, "GetQNSctFromActualCoor(j * enlarged_dim).GetQn() -", "GetQNSctFromActualCoor(j).GetQn() -")],
    HEAD + r"""
int main() {
  sites::SpinOneHalfSite<U1QN> s; SiteVec<double, U1QN> sv(4, s.phys_bond_out); FiniteMPS<double, U1QN> m(sv);
  std::vector<std::vector<size_t>> st = {{0, 0, 1, 1}, {1, 1, 0, 0}};
  try { ExtendDirectRandomInitMps(m, st, 3); } catch (...) { return 1; }
  Vec v = tn::DenseMps(std::as_const(m)); return std::abs(v[3]) > 1e-12 && std::abs(v[12]) > 1e-12 ? 0 : 1;
}""", "several product states with an enlargement above one", "the charges of the second and later states are computed from the wrong block", **SH)
bug("G07a", "G07", [(FMPS, "          p_to_n *= p;", "          p_to_n *= p_to_n;")],
    HEAD + r"""
int main() {
  sites::SpinOneHalfSite<U1QN> s; SiteVec<double, U1QN> sv(2, s.phys_bond_out); FiniteMPS<double, U1QN> m(sv);
  ExtendDirectRandomInitMps(m, {{0, 1}, {1, 0}}, 1); Vec v = tn::DenseMps(std::as_const(m)); double n = tn::Norm(v), p = 0;
  for (auto &x : v) p += std::pow(std::norm(x) / n / n, 3);
  return std::abs(m.GetEntanglementEntropy(3)[0] - (-std::log(p) / 2)) < 1e-9 ? 0 : 1;
}""", "Renyi entropies of order 3 and above", "the powers of the probabilities are 2^(n-1) instead of n", **SH)
bug("G05a", "G05", [(FDISK, "              return a[0] < b[0];", "              return a[1] < b[1];")],
    HEAD + r"""
#include <filesystem>
int main() {
  sites::SpinOneHalfSite<U1QN> s; SpinOneHalfOperators<double, U1QN> o; SiteVec<double, U1QN> sv(6, s.phys_bond_out); FiniteMPS<double, U1QN> m(sv);
  ExtendDirectRandomInitMps(m, {{0, 1, 0, 1, 0, 1}, {1, 0, 1, 0, 1, 0}, {0, 0, 1, 1, 0, 1}}, 2); Vec v = tn::DenseMps(std::as_const(m)); m.Dump("mps", true);
  Mat z = tn::OpMat(o.sz); auto r = MeasureFourSiteOpGroup(m, "mps", std::array<T, 4>{o.sz, o.sz, o.sz, o.sz}, {0, 1}, {{2, 5}, {3, 4}});
  for (auto &e : r) { std::vector<std::pair<size_t, Mat>> p; for (auto i : e.sites) p.push_back({i, z}); if (!(std::abs(tn::Dot(v, tn::Product(D(6), p) * v).real() - e.avg) < 1e-10)) return 1; }
  return 0;
}""", "target pairs of which one lies inside another", "the left part is contracted beyond the first target site of a later event", **SH)
bug("A02a", "A02", [(SINGLE, "    DumpRelatedTensSingleSiteAlg(mps, lenvs, renvs, i, 'l', sweep_params);\n  }\n  return e0;", "    DumpRelatedTensSingleSiteAlg(mps, lenvs, renvs, i, 'l', sweep_params);\n  }\n  return actual_laststep_e0;")],
    HEIS + r"""
int main() {
  Chain<double> c(6); auto m = c.start(); m.Dump("mps", true);
  auto p = Sw(1, 64, 1e-12, 2); double e = SingleSiteFiniteVMPS(m, c.mpo, p); return std::abs(e - c.energy(c.disk())) < 1e-9 ? 0 : 1;
}""", "a run that ends before it has converged", "the returned energy is that of the state before the last update", **SH)
bug("A03a", "A03", [(DI, "    for (size_t site = right_boundary; site >= left_boundary + 1; site--) {", "    for (size_t site = right_boundary; site > left_boundary + 1; site--) {")],
    HEIS + r"""
#include <filesystem>
int main() {
  Chain<double> c(6); auto m = c.start(); m.Dump("mps", true); double e = FiniteDMRG(m, c.mr, Sw(1)), f = 0;
  std::string f0 = GenOpFileName("r", 3, 0, "tmp"); if (!std::filesystem::exists(f0)) return 3;
  std::filesystem::remove(f0);
  try { f = FiniteDMRG(m, c.mr, Sw(1)); } catch (...) { return 1; }
  return f < e + 1e-9 && std::abs(f - c.energy(c.disk())) < 1e-8 ? 0 : 1;
}""", "a run that continues with the leftmost right block operators missing on disk", "the loss goes unnoticed and the sweep works without an operator", **SH)
bug("A04a", "A04", [(TDVP, "    CreatPath(sweep_params.temp_path);\n  }\n  InitEnvs(mps, ham_mpo, FiniteVMPSSweepParams(sweep_params), 1);", "    CreatPath(sweep_params.temp_path);\n    InitEnvs(mps, ham_mpo, FiniteVMPSSweepParams(sweep_params), 1);\n  }")],
    HEIS + r"""
#include "qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h"
#include <filesystem>
typedef QLTEN_Complex C;
int main() {
  Chain<C> c(4); Vec w[2];
  for (int k = 0; k < 2; ++k) {
    std::filesystem::remove_all("mps"); std::filesystem::remove_all("ini"); std::filesystem::remove_all("mt"); if (k == 0) std::filesystem::remove_all("tmp");
    auto run = [&](size_t site, size_t steps) { auto m = c.start(); m.Dump("mps", true); QLTensor<C, U1QN> none; TDVPEvolveParams<U1QN> p(0.1, steps, site, c.o.sz, none, c.o.sz, none, 0.0, 1, 64, 0.0, LanczosParams(1e-13, 50), "mps", "ini", "tmp", "mt");
      FiniteMPS<C, U1QN> x(c.sv); TwoSiteFiniteTDVP(x, c.mpo, p, "res"); };
    try { if (k == 1) { run(2, 1); std::filesystem::remove_all("mps"); std::filesystem::remove_all("ini"); std::filesystem::remove_all("mt"); } run(1, 2); w[k] = c.disk(); } catch (...) { return 1; }
  }
  return tn::Diff(w[0], w[1]) < 1e-9 ? 0 : 1;
}""", "a second evolution with the same directory for temporary files", "the environments of an earlier state are used", **SH)
bug("A05a", "A05", [(LANC, "      energy0 = energy0_new;\n      auto gs_vec", "      auto gs_vec")],
    HEIS + r"""
int main() {
  Chain<double> c(5); auto m = c.start(); m.Dump("mps", true);
  double e = TwoSiteFiniteVMPS(m, c.mpo, Sw(1, 64, 1e-12, 2)); return std::abs(e - c.energy(c.disk())) < 1e-9 ? 0 : 1;
}""", "an eigensolver that reaches its iteration limit before it has converged", "the energy returned is that of the iteration before", **SH)
bug("A06a", "A06", [(EXPMV, "        hp_numeric::VectorScale(combination_factor, m, initial_norm);", "        hp_numeric::VectorScale(combination_factor, 1, initial_norm);")],
    HEIS + r"""
#include "qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h"
typedef QLTEN_Complex C; typedef QLTensor<C, U1QN> TC;
static TC *Mul(const std::vector<TC *> &h, TC *s) { auto r = new TC(s->GetIndexes()); for (size_t i = 0; i < 3; ++i) { C x = 0; for (size_t j = 0; j < 3; ++j) x += h[0]->GetElem({i, j}) * s->GetElem({0, j, 0}); (*r)({0, i, 0}) = x; } return r; }
int main() {
  Index<U1QN> p({QNSector<U1QN>(U1QN(0), 3)}, OUT), a({QNSector<U1QN>(U1QN(0), 1)}, IN), b({QNSector<U1QN>(U1QN(0), 1)}, OUT);
  TC h({InverseIndex(p), p}); h({0, 1}) = 1; h({1, 0}) = 1; h({2, 2}) = 5; auto s = new TC({a, p, b}); (*s)({0, 0, 0}) = 2;
  auto r = LanczosExpmvSolver(std::vector<TC *>{&h}, s, &Mul, 0.5, LanczosParams(1e-14, 20));
  C x = r.expmv->GetElem({0, 0, 0}), y = r.expmv->GetElem({0, 1, 0});
  return std::abs(x - 2 * std::cos(0.5)) < 1e-9 && std::abs(y - C(0, -2 * std::sin(0.5))) < 1e-9 ? 0 : 1;
}""", "a start vector of norm other than one whose Krylov space is exhausted before the iteration has converged", "only the first amplitude gets the norm of the start vector", **SH)
bug("A07a", "A07", [(DG, "    e0_ = TwoSiteUpdate_();\n    DumpRelatedTensSweep_();\n    if (emergency_stop_requested_.load()) [[unlikely]] {\n      EmergencyDumpRelatedTens_();\n      return e0_;\n    }\n  }\n\n  dir_ = 'l';",
                     "    e0_ = TwoSiteUpdate_();\n    DumpRelatedTensSweep_();\n    if (emergency_stop_requested_.load() && i + 2 < right_boundary_) [[unlikely]] {\n      EmergencyDumpRelatedTens_();\n      return e0_;\n    }\n  }\n\n  if (emergency_stop_requested_.load()) { return e0_; }\n  dir_ = 'l';")],
    HEIS + r"""
#include <csignal>
#include <filesystem>
struct Buf : std::streambuf { std::string l; int n = 0, at; Buf(int a) : at(a) {} int overflow(int c) override { if (c == '\n') { if (l.compare(0, 4, "Site") == 0 && n++ == at) raise(SIGINT); l.clear(); } else if (l.size() < 8) l.push_back(char(c)); return c; } };
int main() {
  Chain<double> c(6); auto m = c.start(); m.Dump("mps", true); std::cout.clear(); Buf b(0); 
  // the number of updates of half a sweep
  { FiniteMPS<double, U1QN> x(c.sv); Buf k(-1); auto *o = std::cout.rdbuf(&k); FiniteDMRG(x, c.mr, Sw(1)); std::cout.rdbuf(o); b.at = k.n / 2 - 1; }
  std::filesystem::remove_all("tmp"); std::filesystem::remove_all("mps");
  auto m2 = c.start(); m2.Dump("mps", true); auto *o = std::cout.rdbuf(&b); FiniteMPS<double, U1QN> x(c.sv); double e = FiniteDMRG(x, c.mr, Sw(3)); std::cout.rdbuf(o);
  Vec v = c.disk(); return std::abs(tn::Norm(v) - 1) < 1e-8 && std::abs(c.energy(v) - e) < 1e-8 ? 0 : 1;
}""", "SIGINT during the last update of the first half of a sweep", "the tensor at the turning point is not written as the center", **SH)
MSH = dict(flags=SH["flags"], files=SH["files"] + ["harness/mpi_world.h"])
bug("M01a", "M01", [(MPISL, "    overlap += Real(temp_scalar_ten());", "    overlap = Real(temp_scalar_ten());")],
    HEIS.replace('#include "tn.h"', '#include "tn.h"\n#include "mpi_world.h"') + r"""
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
int main() {
  Chain<double> c(6); auto m = c.start(); m.Dump("mps", true); double e = 0;
  mpiw::Options o; o.ranks = 2; mpiw::World w(o);
  std::string err = w.Run([&](int r) { FiniteMPS<double, U1QN> x(c.sv); double f = TwoSiteFiniteVMPS(x, c.mpo, Sw(1), MPI_COMM_WORLD); if (r == 0) e = f; });
  if (!err.empty()) return 1;
  return std::abs(e - c.energy(c.disk())) < 1e-7 ? 0 : 1;
}""", "fewer workers than charge sectors, so that one worker computes several parts", "only the last part of a worker enters the diagonal matrix element", **MSH)
MASTER, TDVPM, DSL, NOISED = Q + "algo_mpi/env_ten_update_master.h", Q + "algo_mpi/tdvp/two_site_update_finite_tdvp_mpi_impl_master.h", Q + "algo_mpi/dmrg/dmrg_mpi_impl_slave.h", Q + "algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi_impl.h"
TENVEC = Q + "one_dim_tn/framework/ten_vec.h"
MPIALL = HEIS.replace('#include "tn.h"', '#include "tn.h"\n#include "mpi_world.h"') + r"""
#include "qlmps/algo_mpi/vmps/two_site_update_finite_vmps_mpi.h"
#include "qlmps/algo_mpi/tdvp/two_site_update_finite_tdvp_mpi.h"
#include "qlmps/algo_mpi/dmrg/dmrg_mpi.h"
#include "qlmps/algorithm/vmps/two_site_update_noise_finite_vmps_impl.h"
namespace std { using mpiw_thread = ::mpiw::Thread; }
#define thread mpiw_thread
#include "qlmps/algo_mpi/vmps/two_site_update_noised_finite_vmps_mpi.h"
#undef thread
#include <filesystem>
typedef QLTEN_Complex C;
static void Clean() { for (auto p : {"mps", "tmp", "ini", "mt"}) std::filesystem::remove_all(p); }
"""
bug("M01b", "M01", [(MASTER, """    for (size_t i = 0; i < task_size - worker_size; i++) {
      auto &bsdt = res_list[i].GetBlkSparDataTen();
      MPI_Status status = bsdt.MPI_Recv(comm, MPI_ANY_SOURCE, MPI_ANY_TAG);
      hp_numeric::MPI_Send(arraging_tasks[i], status.MPI_SOURCE, TaskTag(status.MPI_SOURCE), comm);
    }
    size_t final_signal""", """    for (size_t i = 0; i < task_size - worker_size; i++) {
      auto &bsdt = res_list[i].GetBlkSparDataTen();
      bsdt.MPI_Recv(comm, MPI_ANY_SOURCE, MPI_ANY_TAG);
      const int worker = 1 + i % worker_size; // the workers take turns
      hp_numeric::MPI_Send(arraging_tasks[i], worker, TaskTag(worker), comm);
    }
    size_t final_signal""")],
    MPIALL + r"""
int main() {
  Chain<double> c(6); bool ok = true;
  mpiw::Explore([&](const std::vector<int> &s, std::vector<int> &ch) {
    std::vector<int> ar; if (!ok) return ar;
    Clean(); auto m = c.start(); m.Dump("mps", true); double e = 0;
    mpiw::Options o; o.ranks = 3; o.script = s; mpiw::World w(o);
    std::string err = w.Run([&](int r) { FiniteMPS<double, U1QN> x(c.sv); double f = TwoSiteFiniteVMPS(x, c.mpo, Sw(1), MPI_COMM_WORLD); if (r == 0) e = f; });
    ch = w.choices; ar = w.arity; if (!err.empty() || !(std::abs(e - c.energy(c.disk())) < 1e-7)) ok = false; return ar;
  }, 1, 1, [](const std::vector<int> &) { return true; });
  return ok ? 0 : 1;
}""", "a worker that sends two results before another one sends its first", "tasks are handed out in turns instead of to the worker that asked", **MSH)
bug("M02a", "M02", [(TDVPM, "    if (i == N - 1) {\n      MasterTwoSite", "    if (i == N - 1 && i > 2) {\n      MasterTwoSite")],
    MPIALL + r"""
int main() {
  Chain<C> c(3); Vec w[2]; QLTensor<C, U1QN> none;
  MPITDVPSweepParams<U1QN> p(0.1, 2, 1, c.o.sz, none, c.o.sz, none, 0.0, 1, 64, 0.0, LanczosParams(1e-13, 50), "mps", "ini", "tmp", "mt");
  for (int k = 0; k < 2; ++k) {
    Clean(); auto m = c.start(); m.Dump("mps", true); FiniteMPS<C, U1QN> y(c.sv);
    if (k == 0) { TwoSiteFiniteTDVP(y, c.mpo, static_cast<const TDVPEvolveParams<U1QN> &>(p), "res"); }
    else { mpiw::Options o; o.ranks = 3; mpiw::World v(o); std::string err = v.Run([&](int) { FiniteMPS<C, U1QN> x(c.sv); TwoSiteFiniteTDVP(x, c.mpo, p, "res", MPI_COMM_WORLD); }); if (!err.empty()) return 1; }
    w[k] = c.disk(); w[k] = tn::Scale(w[k], 1 / tn::Norm(w[k]));
  }
  return tn::Diff(w[0], w[1]) < 1e-9 ? 0 : 1;
}""", "a chain of three sites, evolved with MPI", "the last two sites are evolved over half of the time step", **MSH)
bug("M02b", "M02", [(TDVPM, "ActOperatorOnMps(sweep_params.local_op0, sweep_params.inst0,", "ActOperatorOnMps(sweep_params.local_op0, sweep_params.inst1,")],
    MPIALL + r"""
int main() {
  Chain<C> c(4); Vec w[2]; QLTensor<C, U1QN> none, z = c.o.sz; z({0, 0}) = 1; z({1, 1}) = -1;
  MPITDVPSweepParams<U1QN> p(0.1, 1, 2, c.o.sz, z, c.o.sz, none, 0.0, 1, 64, 0.0, LanczosParams(1e-13, 50), "mps", "ini", "tmp", "mt");
  for (int k = 0; k < 2; ++k) {
    Clean(); auto m = c.start(); m.Dump("mps", true); FiniteMPS<C, U1QN> y(c.sv);
    if (k == 0) { TwoSiteFiniteTDVP(y, c.mpo, static_cast<const TDVPEvolveParams<U1QN> &>(p), "res"); }
    else { mpiw::Options o; o.ranks = 2; mpiw::World v(o); std::string err = v.Run([&](int) { FiniteMPS<C, U1QN> x(c.sv); TwoSiteFiniteTDVP(x, c.mpo, p, "res", MPI_COMM_WORLD); }); if (!err.empty()) return 1; }
    w[k] = c.disk(); w[k] = tn::Scale(w[k], 1 / tn::Norm(w[k]));
  }
  return tn::Diff(w[0], w[1]) < 1e-9 ? 0 : 1;
}""", "different insertion operators for the two operators of a dynamic correlation", "the kick uses the insertion operator of the measurement", **MSH)
bug("M03a", "M03", [(DSL, "    if (rank_ <= task_num) {", "    if (rank_ <= task_num && rank_ + 1 < mpi_size_) {")],
    MPIALL + r"""
int main() {
  Chain<double> c(5);
  for (int ranks = 2; ranks < 7; ++ranks) {
    Clean(); auto m = c.start(); m.Dump("mps", true); double e = 0; mpiw::Options o; o.ranks = ranks; mpiw::World v(o);
    std::string err = v.Run([&](int r) { FiniteMPS<double, U1QN> x(c.sv); double f = FiniteDMRG(x, c.mr, Sw(1), MPI_COMM_WORLD); if (r == 0) e = f; });
    if (!err.empty() || !(std::abs(e - c.energy(c.disk())) < 1e-8)) return 1;
  }
  return 0;
}""", "exactly as many workers as there are block operators at a bond", "the last worker computes nothing and the master waits for it", **MSH)
bug("M04a", "M04", [(NOISED, """    dump_related_tens_thread = std::thread(
        DumpRelatedTensOnTwoSiteAlgWhenLeftMoving<TenElemT, QNT>,
        std::ref(mps),
        std::ref(lenvs),
        std::ref(renvs),
        i,
        std::ref(sweep_params)
    );""", """    dump_related_tens_thread = std::thread([&]() {
      DumpRelatedTensOnTwoSiteAlgWhenLeftMoving(mps, lenvs, renvs, i, sweep_params);
    });""")],
    MPIALL + r"""
static FiniteVMPSSweepParams Nz() { return FiniteVMPSSweepParams(1, 1, 64, 0.0, LanczosParams(1e-13, 60), std::vector<double>{0.1}, kVMPSMaxNoise, kVMPSNoiseIncreaseRate, kVMPSNoiseDecreaseRate, kVMPSNoiseAlpha, std::string("mps"), std::string("tmp")); }
int main() {
  Chain<double> c(6); bool ok = true; double want = 0; bool have = false; size_t runs = 0;
  mpiw::Explore([&](const std::vector<int> &s, std::vector<int> &ch) {
    std::vector<int> ar; if (!ok || ++runs > 400) return ar;
    Clean(); auto m = c.start(); m.Dump("mps", true); double e = 0; mpiw::Options o; o.ranks = 2; o.script = s; mpiw::World v(o);
    std::string err = v.Run([&](int r) { FiniteMPS<double, U1QN> x(c.sv); double f = TwoSiteFiniteVMPS(x, c.mpo, Nz(), MPI_COMM_WORLD); if (r == 0) e = f; });
    ch = v.choices; ar = v.arity; if (!err.empty()) { ok = false; return ar; }
    if (!have) { want = e; have = true; } if (!(std::abs(e - want) < 1e-9) || !(std::abs(c.energy(c.disk()) - e) < 1e-8)) ok = false; return ar;
  }, 1, 1, [](const std::vector<int> &) { return true; });
  return ok ? 0 : 1;
}""", "a dumper thread that starts only after the loop has gone on to the next site", "the thread writes and frees the tensors of the next site", **MSH)
bug("G04a", "G04", [("include/qlmps/algorithm/dmrg/operator_io.h", "    read_success &= ReadQLTensorFromFile(op_gp[comp], file_name);\n  }\n  return read_success;\n}\n\ntemplate<typename TenT>\nbool ReadAnd", "    read_success = ReadQLTensorFromFile(op_gp[comp], file_name);\n  }\n  return read_success;\n}\n\ntemplate<typename TenT>\nbool ReadAnd")],
    HEAD + r"""
#include "qlmps/algorithm/dmrg/dmrg.h"
#include <filesystem>
int main() {
  std::filesystem::create_directory("t"); Index<U1QN> o({QNSector<U1QN>(U1QN(0), 2)}, OUT); T t({InverseIndex(o), o}); t({0, 0}) = 1; t({1, 0}) = 2;
  BlockOperatorGroup<T> g(3), h(3); for (size_t i = 0; i < 3; ++i) g[i] = t;
  WriteOperatorGroup("l", 1, g, "t"); bool all = ReadOperatorGroup("l", 1, h, "t");
  std::filesystem::remove(GenOpFileName("l", 1, 1, "t")); BlockOperatorGroup<T> k(3); bool some = ReadOperatorGroup("l", 1, k, "t");
  return all && !some ? 0 : 1;
}""", "a component file other than the last one is missing", "the failed read is reported as a success", **SH)
bug("A05b", "A05", [(LANC, "            (m == eff_ham_eff_dim) ||", "            (m + 2 >= eff_ham_eff_dim) ||")],
    HEIS + r"""
typedef T TT;
static TT *Mul(const std::vector<TT *> &h, TT *s) { auto r = new TT(s->GetIndexes()); for (size_t i = 0; i < 3; ++i) { double x = 0; for (size_t j = 0; j < 3; ++j) x += h[0]->GetElem({i, j}) * s->GetElem({0, j, 0}); (*r)({0, i, 0}) = x; } return r; }
int main() {
  Index<U1QN> p({QNSector<U1QN>(U1QN(0), 3)}, OUT), a({QNSector<U1QN>(U1QN(0), 1)}, IN), b({QNSector<U1QN>(U1QN(0), 1)}, OUT);
  TT h({InverseIndex(p), p}); for (size_t i = 0; i < 3; ++i) h({i, i}) = double(i) - 1; auto s = new TT({a, p, b}); for (size_t i = 0; i < 3; ++i) (*s)({0, i, 0}) = 1;
  auto r = LanczosSolver(std::vector<TT *>{&h}, s, &Mul, LanczosParams(1e-14, 20));
  return std::abs(r.gs_eng + 1) < 1e-9 ? 0 : 1;
}""", "a Krylov space that is as large as the whole space", "the last direction is never explored", **SH)

# ---------------------------------------------------------------- truncation, widths, unit cells
bug("G08a", "G08", [(FSM, "    auto poss_it = std::find(\n        conv_obj_hub_.cbegin(), conv_obj_hub_.cend(), conv_obj);", "    // Recent objects are the likely ones, look at the last six first.\n    auto poss_it = std::find(\n        conv_obj_hub_.size() > 6 ? conv_obj_hub_.cend() - 6 : conv_obj_hub_.cbegin(), conv_obj_hub_.cend(), conv_obj);")],
    HEAD + r"""
#include "tn_eigen.h"
int main() {
  // hopping on a ring of four sites, each spin and direction a term
  typedef special_qn::U1U1QN Q2; sites::HubbardSite<Q2> s; HubbardOperators<double, Q2> o(s); const size_t n = 4; SiteVec<double, Q2> sv(n, s.phys_bond_out); MPOGenerator<double, Q2> g(sv, Q2());
  for (size_t i = 0; i < n; ++i) for (int round = 0; round < 4; ++round) { size_t a = std::min(i, (i + 1) % n), b = std::max(i, (i + 1) % n);
    if (round == 0) g.AddTerm(-1.0, o.bupcF, a, o.bupa, b, o.f); if (round == 1) g.AddTerm(1.0, o.bupaF, a, o.bupc, b, o.f); if (round == 2) g.AddTerm(-1.0, o.bdnc, a, o.Fbdna, b, o.f); if (round == 3) g.AddTerm(1.0, o.bdna, a, o.Fbdnc, b, o.f); }
  auto m = g.Gen(); Mat h = tn::DenseMpo(m); bool ok = true;
  for (size_t cut = 1, l = 4; cut < n; ++cut, l *= 4) {
    size_t r = 256 / l; Eigen::MatrixXcd x(l * l, r * r); for (size_t a = 0; a < 256; ++a) for (size_t b = 0; b < 256; ++b) x((a / r) * l + b / r, (a % r) * r + b % r) = h(a, b);
    Eigen::MatrixXcd y = l < r ? Eigen::MatrixXcd(x * x.adjoint()) : Eigen::MatrixXcd(x.adjoint() * x); Eigen::SelfAdjointEigenSolver<Eigen::MatrixXcd> es(y, Eigen::EigenvaluesOnly); size_t k = 0; for (long i = 0; i < es.eigenvalues().size(); ++i) k += es.eigenvalues()[i] > 1e-9;
    std::printf("bond %zu: %zu, rank %zu\n", cut, m[cut].GetShape()[0], k); ok = ok && m[cut].GetShape()[0] == k;
  }
  return ok ? 0 : 1;
}""", "a Hamiltonian with more than six different local operators whose terms come bond by bond", "the same operator gets several labels, so terms that share it are not merged and the bonds are wider than needed", flags=SH["flags"], files=SH["files"] + ["harness/tn_eigen.h"])
bug("F06a", "F06", [(IFSM, "    } else {\n      mid_stat_nums_[target_site]++;\n      FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);", "    } else if (i > unit_cell_site_num_ && opr == ntrvl_ops.at(i - unit_cell_site_num_) &&\n               fsm_path.Node(i) == fsm_path.Node(i - unit_cell_site_num_)) {\n      fsm_path.AddNode(i + 1, fsm_path.Node(i + 1 - unit_cell_site_num_));\n    } else if (i > unit_cell_site_num_ && opr == ntrvl_ops.at(i - unit_cell_site_num_)) {\n      FSMNode old_node = fsm_path.Node(i + 1 - unit_cell_site_num_);\n      fsm_path.AddNode(i + 1, old_node);\n      fsm_nn_links[last_node].insert(std::make_pair(opr, old_node));\n    } else {\n      mid_stat_nums_[target_site]++;\n      FSMNode new_node(target_site, (long) mid_stat_nums_[target_site]);")],
    r'''
#include <map>
#include <vector>
#include "qlmps/one_dim_tn/mpo/mpogen/ifsm.h"
typedef std::map<std::vector<long>, long> Poly;
int main() {
  const size_t cell = 2, win = 8; iFSM f(cell, OpReprVec(cell, OpRepr(0)));
  std::vector<long> t = {1, 2, 3, 2, 3, 4}; OpReprVec ops; for (long l : t) ops.push_back(OpRepr(l)); f.AddPath(0, ops);
  auto ms = f.GenMatRepr(); std::vector<Poly> v(ms[0].rows); v[0][{}] = 1;
  for (size_t s = 0; s < win; ++s) { auto &m = ms[s % cell]; std::vector<Poly> w(m.cols);
    for (size_t i = 0; i < m.rows; ++i) for (size_t j = 0; j < m.cols; ++j) { OpRepr o = m(i, j); for (auto l : o.GetOpLabelList()) for (auto &x : v[i]) { auto k = x.first; k.push_back(l); w[j][k] += x.second; } } v = w; }
  Poly want; for (size_t h = 0; h + t.size() <= win; h += cell) { std::vector<long> k(win, 0); for (size_t i = 0; i < t.size(); ++i) k[h + i] = t[i]; want[k] += 1; }
  return v.back() == want ? 0 : 1;
}''', "a term longer than two unit cells that repeats an operator one cell later", "a closed loop makes terms with the repeated part left out or repeated more often")
bug("C04a", "C04", [("include/qlmps/algorithm/lanczos_params.h", "      LanczosParams(lancz_params.error, lancz_params.max_iterations) {}", "      LanczosParams(lancz_params.error) {\n    if (lancz_params.max_iterations > 0) { max_iterations = lancz_params.max_iterations; }\n  }")],
    r'''
#include "qlmps/algorithm/lanczos_params.h"
int main() { qlmps::LanczosParams a(1e-9, 0), b(a), c(1e-3, 7), d(c); return b.max_iterations == 0 && b.error == 1e-9 && d.max_iterations == 7 ? 0 : 1; }''', "a record with an iteration limit of zero that is copied", "the copy has the default limit")
VM2 = Q + "algorithm/vmps/two_site_update_finite_vmps_impl.h"
bug("A01b", "A01", [(VM2, "  auto lancz_res = LanczosSolver(\n      eff_ham, init_state,\n      &eff_ham_mul_two_site_state,\n      sweep_params.lancz_params\n  );", "  // The eigenvector need not be more precise than the truncation that follows.\n  LanczosParams lancz_params(std::max(sweep_params.lancz_params.error, sweep_params.trunc_err), sweep_params.lancz_params.max_iterations);\n  auto lancz_res = LanczosSolver(\n      eff_ham, init_state,\n      &eff_ham_mul_two_site_state,\n      lancz_params\n  );")],
    HEIS + r"""
int main() {
  Chain<double> c(4); auto m = c.start(); m.Dump("mps", true); FiniteMPS<double, U1QN> x(c.sv);
  double e = TwoSiteFiniteVMPS(x, c.mpo, FiniteVMPSSweepParams(2, 64, 64, 0.05, LanczosParams(1e-13, 100), std::string("mps"), std::string("tmp")));
  std::vector<size_t> keep; for (size_t i = 0; i < 16; ++i) if (__builtin_popcountll(i) == 2) keep.push_back(i);
  return std::abs(e - tn::Spectrum(c.h, keep)[0]) < 1e-7 ? 0 : 1;
}""".replace("int main", "#include \"tn_eigen.h\"\nint main"), "an allowed discarded weight that is larger than the tolerance of the eigensolver", "the eigenvectors are only as precise as the allowed discarded weight", flags=SH["flags"], files=SH["files"] + ["harness/tn_eigen.h"])
bug("A03b", "A03", [(DG, "      sweep_params.trunc_err, sweep_params.Dmin, sweep_params.Dmax,\n      u, &s, vt,", "      sweep_params.trunc_err / (right_boundary_ - left_boundary_), sweep_params.Dmin, sweep_params.Dmax,\n      u, &s, vt,")],
    HEIS + r"""
#include "tn_eigen.h"
int main() {
  for (double tr : {0.1}) {
    std::filesystem::remove_all("mps"); std::filesystem::remove_all("tmp");
    Chain<double> c(4); auto m = c.start(); m.Dump("mps", true); FiniteMPS<double, U1QN> x(c.sv);
    FiniteDMRG(x, c.mr, FiniteVMPSSweepParams(3, 1, 64, tr, LanczosParams(1e-13, 100), std::string("mps"), std::string("tmp")));
    FiniteMPS<double, U1QN> y(c.sv); y.Load("mps"); Vec v = c.disk();
    // as few states as the allowed weight permits
    size_t k = 0; auto s = tn::Schmidt2(v, 4); double tot = 0, tail = 0; for (double w : s) tot += w; k = s.size(); while (k > 1 && tail + s[k - 1] <= 0.9 * tr * tot) tail += s[--k];
    std::printf("%g: %zu %zu\n", tr, k, y[1].GetShape()[2]); if (y[1].GetShape()[2] > k) return 1;
  }
  return 0;
}""".replace("#include \"tn", "#include <filesystem>\n#include \"tn"), "an allowed discarded weight above zero", "the allowed weight is divided by the number of updates, so bonds are wider than asked for", flags=SH["flags"], files=SH["files"] + ["harness/tn_eigen.h"])
bug("A04b", "A04", [(TDVP, "  SVD(\n      lancz_res.expmv,\n      svd_ldims, Div(mps[lsite_idx]),\n      sweep_params.trunc_err, sweep_params.Dmin,", "  SVD(\n      lancz_res.expmv,\n      svd_ldims, Div(mps[lsite_idx]),\n      sweep_params.trunc_err * std::abs(sweep_params.tau), sweep_params.Dmin,")],
    HEIS + r"""
#include "qlmps/algorithm/tdvp/two_site_update_finite_tdvp_impl.h"
int main() {
  typedef QLTEN_Complex C; Chain<C> c(4); auto m = c.start(); m[0] *= C(1 / m[0].Get2Norm()); m.Dump("mps", true); QLTensor<C, U1QN> none;
  TDVPEvolveParams<U1QN> p(0.01, 1, 1, c.o.sz, none, c.o.sz, none, 0.0, 1, 64, 0.05, LanczosParams(1e-13, 50), "mps", "ini", "tmp", "mt");
  FiniteMPS<C, U1QN> x(c.sv), y(c.sv); TwoSiteFiniteTDVP(x, c.mpo, p, "res"); y.Load("mps"); 
  // as few states as the allowed weight permits: a further one would exceed it
  Vec v = c.disk(); auto s = tn::Schmidt2(v, 4); double tot = 0, tail = 0; for (double w : s) tot += w; size_t k = s.size(); while (k > 1 && tail + s[k - 1] <= 0.04 * tot) tail += s[--k];
  std::printf("%zu %zu\n", k, y[1].GetShape()[2]); return y[1].GetShape()[2] <= k ? 0 : 1;
}""".replace("int main", "#include \"tn_eigen.h\"\nint main"), "an allowed discarded weight above zero", "the allowed weight is scaled with the time step, so bonds are wider than asked for", flags=SH["flags"], files=SH["files"] + ["harness/tn_eigen.h"])
