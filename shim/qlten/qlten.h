// Stand-in for TensorToolkit ("qlten"), which UltraDMRG needs but the sandbox
// does not have.  Every tensor is stored dense; each index carries its quantum
// number sectors and direction, every contraction checks that the contracted
// indices are mutual inverses, and every element that is set is checked
// against the tensor's divergence.  The decompositions are block-wise in the
// quantum numbers, so their results carry legal indices.
//
// A misuse (mismatched indices, a violated symmetry, an element out of range)
// calls shim::Fail, which throws; explorers turn that into a violation.
#ifndef SHIM_QLTEN_H
#define SHIM_QLTEN_H

#include <algorithm>
#include <array>
#include <cassert>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <initializer_list>
#include <iomanip>
#include <iostream>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <atomic>
#include <functional>

#include "qlten/utility/timer.h"
#include "qlten/mpi_core.h"

namespace qlten {

using QLTEN_Double = double;
using QLTEN_Complex = std::complex<double>;
const std::string kQLTenFileSuffix = "qlten";
const double kDoubleEpsilon = 1e-15;
using ShapeT = std::vector<size_t>;
using CoorsT = std::vector<size_t>;

namespace shim {
struct Misuse : std::logic_error { using std::logic_error::logic_error; };
[[noreturn]] inline void Fail(const std::string &m) { throw Misuse("tensor library: " + m); }
// Deterministic source of "random" tensor elements; explorers may reseed it.
inline uint64_t &Rng() { static thread_local uint64_t s = 0x9E3779B97F4A7C15ull; return s; }
inline double Rand01() {
  uint64_t &s = Rng();
  s ^= s << 13; s ^= s >> 7; s ^= s << 17;
  return double((s * 2685821657736338717ull) >> 11) / 9007199254740992.0;
}
// Hooks used by the crash/fault explorers.  Called before a tensor is written
// to / read from a stream; may throw or set the stream's state.
inline std::function<void(std::ostream &, const std::string &)> &WriteHook() {
  static std::function<void(std::ostream &, const std::string &)> h; return h;
}
// Called at the start of every contraction, decomposition and tensor I/O.
inline void (*&StepHook())() { static void (*h)() = nullptr; return h; }
inline void Step() { if (StepHook()) StepHook()(); }
// Number of tensors currently alive (leak / double free accounting).
inline double Conj(double x) { return x; }
inline std::complex<double> Conj(const std::complex<double> &x) { return std::conj(x); }
inline double Abs2(double x) { return x * x; }
inline double Abs2(const std::complex<double> &x) { return std::norm(x); }
inline double RealOf(double x) { return x; }
inline double RealOf(const std::complex<double> &x) { return x.real(); }
template<typename T> struct Id { using type = T; };
template<typename T> T RandElem();
template<> inline double RandElem<double>() { return Rand01(); }
template<> inline std::complex<double> RandElem<std::complex<double>>() {
  double a = Rand01(), b = Rand01(); return {a, b};
}
} // shim

inline double abs(double x) { return std::fabs(x); }
inline double abs(const std::complex<double> &x) { return std::abs(x); }
inline double norm(double x) { return x * x; }
inline double norm(const std::complex<double> &x) { return std::norm(x); }
inline double sqrt(double x) { return std::sqrt(x); }
inline std::complex<double> sqrt(const std::complex<double> &x) { return std::sqrt(x); }
inline double conj(double x) { return x; }
inline std::complex<double> conj(const std::complex<double> &x) { return std::conj(x); }
inline double CalcConj(double x) { return x; }
inline std::complex<double> CalcConj(const std::complex<double> &x) { return std::conj(x); }
inline double CalcScalarNorm(double x) { return std::fabs(x); }
inline double CalcScalarNorm(const std::complex<double> &x) { return std::abs(x); }
inline std::string IndentPrinter(size_t n) { return std::string(4 * n, ' '); }

template<typename T>
inline std::istream &bfread(std::istream &is, T &x) { is.read(reinterpret_cast<char *>(&x), sizeof(T)); return is; }
template<typename T>
inline std::ostream &bfwrite(std::ostream &os, const T &x) { os.write(reinterpret_cast<const char *>(&x), sizeof(T)); return os; }

namespace hp_numeric {
inline int tensor_manipulation_num_threads = 1;
inline int tensor_transpose_num_threads = 1;
inline void SetTensorManipulationThreads(unsigned n) { tensor_manipulation_num_threads = int(n); }
inline unsigned GetTensorManipulationThreads() { return unsigned(tensor_manipulation_num_threads); }
inline void SetTensorTransposeNumThreads(unsigned n) { tensor_transpose_num_threads = int(n); }
inline unsigned GetTensorTransposeNumThreads() { return unsigned(tensor_transpose_num_threads); }
template<typename T, typename S>
inline void VectorScale(T *v, size_t n, S s) { for (size_t i = 0; i < n; ++i) v[i] *= s; }
template<typename T>
inline void VectorAddTo(const T *x, size_t n, T *y, double a = 1.0) { for (size_t i = 0; i < n; ++i) y[i] += a * x[i]; }
template<typename T>
inline double Vector2Norm(const T *x, size_t n) {
  double s = 0; for (size_t i = 0; i < n; ++i) s += shim::Abs2(x[i]); return std::sqrt(s);
}
}

// ---------------------------------------------------------------- QN / Index
enum TenIndexDirType { IN = -1, NDIR = 0, OUT = 1 };

class U1QNVal {
 public:
  U1QNVal() : v(0) {}
  U1QNVal(int v) : v(v) {}
  int GetVal() const { return v; }
  int v;
};
class QNCard {
 public:
  QNCard(const std::string &name, const U1QNVal &val) : name(name), val(val) {}
  std::string name;
  U1QNVal val;
};
using QNCardVec = std::vector<QNCard>;

template<size_t K, int Tag>
class ShimQN {
 public:
  ShimQN() { v_.fill(0); }
  ShimQN(const QNCardVec &cards) {
    v_.fill(0);
    if (cards.size() != K) shim::Fail("quantum number with a wrong number of cards");
    for (size_t i = 0; i < K; ++i) v_[i] = cards[i].val.v;
  }
  ShimQN(std::initializer_list<QNCard> cards) : ShimQN(QNCardVec(cards)) {}
  template<typename... I, typename = std::enable_if_t<(sizeof...(I) == K) && (K > 0) && (std::is_integral_v<I> && ...)>>
  explicit ShimQN(I... x) { int t[] = {int(x)...}; for (size_t i = 0; i < K; ++i) v_[i] = t[i]; }
  ShimQN operator-() const { ShimQN r; for (size_t i = 0; i < K; ++i) r.v_[i] = -v_[i]; return r; }
  ShimQN &operator+=(const ShimQN &o) { for (size_t i = 0; i < K; ++i) v_[i] += o.v_[i]; return *this; }
  ShimQN operator+(const ShimQN &o) const { ShimQN r(*this); r += o; return r; }
  ShimQN operator-(const ShimQN &o) const { return *this + (-o); }
  bool operator==(const ShimQN &o) const { return v_ == o.v_; }
  bool operator!=(const ShimQN &o) const { return !(*this == o); }
  bool operator<(const ShimQN &o) const { return v_ < o.v_; }
  size_t Hash() const { size_t h = 17; for (int x : v_) h = h * 1000003u + size_t(x + 4096); return h; }
  static ShimQN Zero() { return ShimQN(); }
  int GetVal(size_t i) const { return v_[i]; }
  static constexpr bool IsFermionic() { return false; }
  bool IsFermionParityOdd() const { return false; }
  bool IsFermionParityEven() const { return true; }
  std::array<int, K> v_;
};
template<size_t K, int T>
inline std::ostream &operator<<(std::ostream &os, const ShimQN<K, T> &q) { for (int x : q.v_) bfwrite(os, x); return os; }
template<size_t K, int T>
inline std::istream &operator>>(std::istream &is, ShimQN<K, T> &q) { for (int &x : q.v_) bfread(is, x); return is; }

namespace special_qn {
using U1QN = ShimQN<1, 0>;
using U1U1QN = ShimQN<2, 0>;
using TrivialRepQN = ShimQN<0, 0>;
}

template<typename QNT>
class QNSector {
 public:
  QNSector() : dim_(0) {}
  QNSector(const QNT &qn, const size_t dim) : qn_(qn), dim_(dim) {}
  const QNT &GetQn() const { return qn_; }
  size_t dim() const { return dim_; }
  size_t GetDegeneracy() const { return dim_; }
  bool operator==(const QNSector &o) const { return dim_ == o.dim_ && qn_ == o.qn_; }
  bool operator!=(const QNSector &o) const { return !(*this == o); }
  size_t Hash() const { return qn_.Hash() * 31 + dim_; }
 private:
  QNT qn_;
  size_t dim_;
};
template<typename QNT>
using QNSectorVec = std::vector<QNSector<QNT>>;

template<typename QNT>
class Index {
 public:
  Index() : dir_(NDIR), dim_(0) {}
  Index(const QNSectorVec<QNT> &s, const TenIndexDirType dir) : s_(s), dir_(dir), dim_(0) {
    for (auto &x : s_) dim_ += x.dim();
    if (dir_ == NDIR) shim::Fail("index without a direction");
  }
  Index(std::initializer_list<QNSector<QNT>> s, const TenIndexDirType dir) : Index(QNSectorVec<QNT>(s), dir) {}
  TenIndexDirType GetDir() const { return dir_; }
  size_t dim() const { return dim_; }
  size_t GetQNSctNum() const { return s_.size(); }
  const QNSector<QNT> &GetQNSct(size_t i) const {
    if (i >= s_.size()) shim::Fail("quantum number sector out of range");
    return s_[i];
  }
  const QNSectorVec<QNT> &GetQNScts() const { return s_; }
  size_t SctOf(size_t coor) const {
    size_t off = 0;
    for (size_t i = 0; i < s_.size(); ++i) { if (coor < off + s_[i].dim()) return i; off += s_[i].dim(); }
    shim::Fail("index coordinate out of range");
  }
  const QNSector<QNT> &GetQNSctFromActualCoor(size_t coor) const { return s_[SctOf(coor)]; }
  std::pair<size_t, size_t> CoorToBlkCoorDataCoor(size_t coor) const {
    size_t off = 0;
    for (size_t i = 0; i < s_.size(); ++i) { if (coor < off + s_[i].dim()) return {i, coor - off}; off += s_[i].dim(); }
    shim::Fail("index coordinate out of range");
  }
  void Inverse() { dir_ = dir_ == IN ? OUT : IN; }
  bool operator==(const Index &o) const { return dir_ == o.dir_ && s_ == o.s_; }
  bool operator!=(const Index &o) const { return !(*this == o); }
  size_t Hash() const { size_t h = size_t(int(dir_) + 2); for (auto &x : s_) h = h * 131 + x.Hash(); return h; }
 private:
  QNSectorVec<QNT> s_;
  TenIndexDirType dir_;
  size_t dim_;
};
template<typename QNT>
using IndexVec = std::vector<Index<QNT>>;
template<typename QNT>
inline Index<QNT> InverseIndex(const Index<QNT> &i) { Index<QNT> r(i); r.Inverse(); return r; }
template<typename QNT>
inline Index<QNT> InverseIndex(Index<QNT> &&i) { Index<QNT> r(std::move(i)); r.Inverse(); return r; }
template<typename QNT>
inline std::ostream &operator<<(std::ostream &os, const Index<QNT> &i) {
  bfwrite(os, int(i.GetDir())); bfwrite(os, i.GetQNSctNum());
  for (auto &s : i.GetQNScts()) { os << s.GetQn(); bfwrite(os, s.dim()); }
  return os;
}
template<typename QNT>
inline std::istream &operator>>(std::istream &is, Index<QNT> &i) {
  int dir = 0; size_t n = 0;
  bfread(is, dir); bfread(is, n);
  if (!is || n > 100000 || (dir != IN && dir != OUT)) { is.setstate(std::ios::failbit); return is; }
  QNSectorVec<QNT> s;
  for (size_t k = 0; k < n && is; ++k) {
    QNT q; size_t d = 0; is >> q; bfread(is, d);
    if (d > 1000000) is.setstate(std::ios::failbit);
    if (is) s.emplace_back(q, d);
  }
  if (is) i = Index<QNT>(s, TenIndexDirType(dir));
  return is;
}

// -------------------------------------------------------------------- Tensor
template<typename ElemT, typename QNT> class QLTensor;

namespace shim {
template<typename QNT>
inline QNT SignedQN(const Index<QNT> &i, size_t sct) {
  return i.GetDir() == OUT ? i.GetQNSct(sct).GetQn() : -i.GetQNSct(sct).GetQn();
}
// counts the tensors alive, for leak checks
struct Live {
  static std::atomic<long> &Count() { static std::atomic<long> n{0}; return n; }
  Live() { ++Count(); }
  Live(const Live &) { ++Count(); }
  Live &operator=(const Live &) { return *this; }
  ~Live() { --Count(); }
};
inline size_t Prod(const std::vector<size_t> &v) { size_t p = 1; for (auto x : v) p *= x; return p; }
}

template<typename ElemT, typename QNT>
class QLTensor {
 public:
  using ElemType = ElemT;
  struct ElemRef {
    QLTensor *t; size_t pos; std::vector<size_t> coors;
    operator ElemT() const { return t->data_[pos]; }
    ElemRef &operator=(const ElemT &v) { t->SetAt_(coors, pos, v); return *this; }
    ElemRef &operator=(const ElemRef &o) { return *this = ElemT(o); }
    ElemRef &operator+=(const ElemT &v) { return *this = ElemT(*this) + v; }
    ElemRef &operator-=(const ElemT &v) { return *this = ElemT(*this) - v; }
    ElemRef &operator*=(const ElemT &v) { return *this = ElemT(*this) * v; }
    bool operator==(const ElemT &v) const { return ElemT(*this) == v; }
    bool operator!=(const ElemT &v) const { return ElemT(*this) != v; }
  };
  struct BlkView {
    QLTensor *t = nullptr;
    void Clear() { t->ClearData_(); }
    inline void MPI_Send(const MPI_Comm &comm, int dest, int tag);
    inline MPI_Status MPI_Recv(const MPI_Comm &comm, int source, int tag);
    size_t GetActualRawDataSize() const { return t->data_.size(); }
    void Allocate(bool = false) {}
    bool IsScalar() const { return t->Rank() == 0; }
  };

  QLTensor() = default;
  QLTensor(const IndexVec<QNT> &idx) : idx_(idx), default_(false) { Init_(); }
  QLTensor(std::initializer_list<Index<QNT>> idx) : idx_(idx), default_(false) { Init_(); }
  QLTensor(const QLTensor &) = default;
  QLTensor &operator=(const QLTensor &) = default;
  QLTensor(QLTensor &&o) noexcept { *this = std::move(o); }
  QLTensor &operator=(QLTensor &&o) noexcept {
    if (this == &o) return *this;
    idx_ = std::move(o.idx_); data_ = std::move(o.data_); shape_ = std::move(o.shape_);
    default_ = o.default_; has_div_ = o.has_div_; div_ = o.div_;
    o.idx_.clear(); o.data_.clear(); o.shape_.clear(); o.default_ = true; o.has_div_ = false;
    return *this;
  }
  // Change of element type (real -> complex).
  template<typename E2, typename = std::enable_if_t<!std::is_same_v<E2, ElemT> && std::is_convertible_v<E2, ElemT>>>
  explicit QLTensor(const QLTensor<E2, QNT> &o) : idx_(o.idx_), shape_(o.shape_), data_(o.data_.begin(), o.data_.end()),
      default_(o.default_), has_div_(o.has_div_), div_(o.div_) {}

  static constexpr bool IsFermionic() { return false; }
  void ActFermionPOps() {}

  bool IsDefault() const { return default_; }
  bool IsScalar() const { return !default_ && idx_.empty(); }
  size_t Rank() const { return idx_.size(); }
  size_t size() const { return default_ ? 0 : shim::Prod(shape_); }
  const ShapeT &GetShape() const { return shape_; }
  const IndexVec<QNT> &GetIndexes() const { return idx_; }
  const Index<QNT> &GetIndex(size_t i) const {
    if (i >= idx_.size()) shim::Fail("tensor index number out of range");
    return idx_[i];
  }
  size_t GetQNBlkNum() const { return has_div_ ? 1 : 0; }
  double GetRawDataMemUsage() const { return double(data_.size() * sizeof(ElemT)) / 1024 / 1024 / 1024; }
  size_t GetActualDataSize() const { return data_.size(); }
  BlkView &GetBlkSparDataTen() const { view_.t = const_cast<QLTensor *>(this); return view_; }
  inline void MPI_Bcast(int root, const MPI_Comm &comm);
  inline void MPI_Send(int dest, int tag, const MPI_Comm &comm) const;
  inline MPI_Status MPI_Recv(int source, int tag, const MPI_Comm &comm);
  const std::vector<ElemT> &Raw() const { return data_; }

  // ---- element access
  ElemT operator()() const { return Scalar_(); }
  ElemT &operator()() {
    if (default_) { default_ = false; Init_(); }
    Scalar_();
    return data_[0];
  }
  ElemRef operator()(const std::vector<size_t> &c) { size_t p = Pos_(c); return ElemRef{this, p, c}; }
  ElemT operator()(const std::vector<size_t> &c) const { return GetElem(c); }
  template<typename... I, typename = std::enable_if_t<(sizeof...(I) > 0) && (std::is_integral_v<I> && ...)>>
  ElemRef operator()(I... i) { return (*this)(std::vector<size_t>{size_t(i)...}); }
  template<typename... I, typename = std::enable_if_t<(sizeof...(I) > 0) && (std::is_integral_v<I> && ...)>>
  ElemT operator()(I... i) const { return GetElem(std::vector<size_t>{size_t(i)...}); }
  ElemT GetElem(const std::vector<size_t> &c) const { size_t p = Pos_(c); return data_[p]; }
  void SetElem(const std::vector<size_t> &c, const ElemT v) { size_t p = Pos_(c); SetAt_(c, p, v); }
  ElemT GetFirstNonZeroElement() const {
    for (auto &x : data_) if (x != ElemT(0)) return x;
    return ElemT(0);
  }

  // ---- quantum numbers
  QNT QNAt(const std::vector<size_t> &c) const {
    QNT q;
    for (size_t k = 0; k < idx_.size(); ++k) q += shim::SignedQN(idx_[k], idx_[k].SctOf(c[k]));
    return q;
  }
  QNT Div() const {
    if (default_) shim::Fail("divergence of a default tensor");
    QNT q; bool has = false;
    ForEach_([&](const std::vector<size_t> &c, size_t p) {
      if (data_[p] == ElemT(0)) return;
      QNT x = QNAt(c);
      if (!has) { q = x; has = true; }
      else if (q != x) shim::Fail("tensor without a definite divergence");
    });
    if (has) return q;
    if (has_div_) return div_;
    return QNT();
  }
  bool HasDivHint() const { return has_div_; }
  const QNT &DivHint() const { return div_; }
  void SetDivHint(const QNT &q) { has_div_ = true; div_ = q; }

  void Random(const QNT &div) {
    if (default_) shim::Fail("Random on a default tensor");
    ForEach_([&](const std::vector<size_t> &c, size_t p) {
      data_[p] = QNAt(c) == div ? shim::RandElem<ElemT>() : ElemT(0);
    });
    has_div_ = true; div_ = div;
  }
  void Fill(const QNT &div, const ElemT v) {
    ForEach_([&](const std::vector<size_t> &c, size_t p) { data_[p] = QNAt(c) == div ? v : ElemT(0); });
    has_div_ = true; div_ = div;
  }

  // ---- arithmetic
  double Get2Norm() const { double s = 0; for (auto &x : data_) s += shim::Abs2(x); return std::sqrt(s); }
  double GetQuasi2Norm() const { return Get2Norm(); }
  double Normalize() {
    double n = Get2Norm();
    for (auto &x : data_) x *= 1.0 / n;       // like the library: a zero tensor becomes NaN
    return n;
  }
  double QuasiNormalize() { return Normalize(); }
  void MultiplyByScalar(const ElemT s) { for (auto &x : data_) x *= s; }
  QLTensor &operator*=(const ElemT s) { MultiplyByScalar(s); return *this; }
  QLTensor operator*(const ElemT s) const { QLTensor r(*this); r *= s; return r; }
  friend QLTensor operator*(const ElemT s, const QLTensor &t) { return t * s; }
  QLTensor operator-() const { QLTensor r(*this); for (auto &x : r.data_) x = -x; return r; }
  QLTensor &operator+=(const QLTensor &o) {
    if (default_ || o.default_) shim::Fail("addition of a default tensor");
    if (idx_ != o.idx_) shim::Fail("addition of tensors with different indices");
    for (size_t i = 0; i < data_.size(); ++i) data_[i] += o.data_[i];
    if (!has_div_ && o.has_div_) { has_div_ = true; div_ = o.div_; }
    CheckDiv_();
    return *this;
  }
  QLTensor operator+(const QLTensor &o) const { QLTensor r(*this); r += o; return r; }
  bool operator==(const QLTensor &o) const {
    if (default_ || o.default_) return default_ == o.default_;
    return idx_ == o.idx_ && data_ == o.data_;
  }
  bool operator!=(const QLTensor &o) const { return !(*this == o); }

  // ---- structure
  void Transpose(const std::vector<size_t> &ax) {
    if (default_) shim::Fail("Transpose of a default tensor");
    std::vector<size_t> chk(ax); std::sort(chk.begin(), chk.end());
    if (chk.size() != idx_.size()) shim::Fail("Transpose with a wrong number of axes");
    for (size_t i = 0; i < chk.size(); ++i) if (chk[i] != i) shim::Fail("Transpose with wrong axes");
    QLTensor r; r.default_ = false;
    for (auto a : ax) r.idx_.push_back(idx_[a]);
    r.Init_();
    std::vector<size_t> st = Strides_(shape_), pst(ax.size());
    for (size_t i = 0; i < ax.size(); ++i) pst[i] = st[ax[i]];
    size_t p = 0;
    Walk_(r.shape_, pst, [&](size_t src) { r.data_[p++] = data_[src]; });
    r.has_div_ = has_div_; r.div_ = div_;
    *this = std::move(r);
  }
  void Dag() {
    for (auto &i : idx_) i.Inverse();
    for (auto &x : data_) x = shim::Conj(x);
    if (has_div_) div_ = -div_;
  }
  // Fuse two indices of equal direction; the fused index becomes the first.
  void FuseIndex(const size_t a, const size_t b) {
    if (!(a < b && b < idx_.size())) shim::Fail("FuseIndex axes");
    if (idx_[a].GetDir() != idx_[b].GetDir()) shim::Fail("FuseIndex directions");
    std::vector<size_t> ord{a, b};
    for (size_t i = 0; i < idx_.size(); ++i) if (i != a && i != b) ord.push_back(i);
    QLTensor t(*this); t.Transpose(ord);
    size_t d1 = t.shape_[0], d2 = t.shape_[1];
    std::vector<QNT> qns; std::vector<std::vector<size_t>> cols;
    for (size_t x = 0; x < d1; ++x) for (size_t y = 0; y < d2; ++y) {
      QNT q = t.idx_[0].GetQNSctFromActualCoor(x).GetQn() + t.idx_[1].GetQNSctFromActualCoor(y).GetQn();
      size_t k = 0; while (k < qns.size() && !(qns[k] == q)) ++k;
      if (k == qns.size()) { qns.push_back(q); cols.emplace_back(); }
      cols[k].push_back(x * d2 + y);
    }
    QNSectorVec<QNT> sc; std::vector<size_t> order;
    for (size_t k = 0; k < qns.size(); ++k) { sc.emplace_back(qns[k], cols[k].size()); for (auto c : cols[k]) order.push_back(c); }
    QLTensor r; r.default_ = false;
    r.idx_.push_back(Index<QNT>(sc, idx_[a].GetDir()));
    for (size_t i = 2; i < t.idx_.size(); ++i) r.idx_.push_back(t.idx_[i]);
    r.Init_();
    size_t rest = r.data_.size() / std::max<size_t>(1, d1 * d2);
    for (size_t k = 0; k < order.size(); ++k)
      std::copy(t.data_.begin() + order[k] * rest, t.data_.begin() + (order[k] + 1) * rest, r.data_.begin() + k * rest);
    r.has_div_ = has_div_; r.div_ = div_;
    *this = std::move(r);
  }
  void Show(size_t = 0) const { std::cout << "<tensor rank " << Rank() << ">\n"; }
  void ConciseShow(size_t = 0) const { Show(); }

  // ---- I/O
  void StreamWrite(std::ostream &os) const {
    if (auto *h = shim_mpi::Cur()) h->FileOp();
    shim::Step();
    if (default_) shim::Fail("writing a default tensor");
    std::ostringstream b;
    bfwrite(b, uint64_t(0x514c54454e534853ull)); bfwrite(b, idx_.size());
    for (auto &i : idx_) b << i;
    bfwrite(b, int(has_div_)); b << div_;
    for (auto &x : data_) bfwrite(b, x);
    std::string s = b.str();
    if (shim::WriteHook()) shim::WriteHook()(os, s);
    os.write(s.data(), std::streamsize(s.size()));
  }
  void StreamRead(std::istream &is) {
    if (auto *h = shim_mpi::Cur()) h->FileOp();
    shim::Step();
    uint64_t magic = 0; size_t n = 0;
    bfread(is, magic); bfread(is, n);
    if (!is || magic != 0x514c54454e534853ull || n > 64) { is.setstate(std::ios::failbit); return; }
    IndexVec<QNT> idx(n);
    for (auto &i : idx) { is >> i; if (!is) return; }
    int hd = 0; QNT d; bfread(is, hd); is >> d;
    if (!is) return;
    QLTensor r(idx);
    for (auto &x : r.data_) bfread(is, x);
    if (!is) return;
    r.has_div_ = hd != 0; r.div_ = d;
    *this = std::move(r);
  }

  // ---- internals shared with the free functions
  void Init_() {
    shape_.clear();
    for (auto &i : idx_) shape_.push_back(i.dim());
    size_t n = shim::Prod(shape_);
    if (n > (size_t(1) << 26)) shim::Fail("tensor too large");
    data_.assign(n, ElemT(0));
    has_div_ = false;
  }
  void ClearData_() { std::fill(data_.begin(), data_.end(), ElemT(0)); has_div_ = false; }
  static std::vector<size_t> Strides_(const std::vector<size_t> &sh) {
    std::vector<size_t> st(sh.size(), 1);
    for (size_t i = sh.size(); i-- > 1;) st[i - 1] = st[i] * sh[i];
    return st;
  }
  template<typename F>
  static void Walk_(const std::vector<size_t> &sh, const std::vector<size_t> &st, F f) {
    if (shim::Prod(sh) == 0) return;
    std::vector<size_t> c(sh.size(), 0);
    size_t off = 0;
    while (true) {
      f(off);
      size_t k = sh.size();
      while (k-- > 0) {
        if (++c[k] < sh[k]) { off += st[k]; break; }
        off -= st[k] * (sh[k] - 1); c[k] = 0;
        if (k == 0) return;
      }
      if (sh.empty()) return;
    }
  }
  template<typename F>
  void ForEach_(F f) const {
    if (data_.empty()) return;
    std::vector<size_t> c(shape_.size(), 0);
    for (size_t p = 0; p < data_.size(); ++p) {
      f(c, p);
      for (size_t k = shape_.size(); k-- > 0;) { if (++c[k] < shape_[k]) break; c[k] = 0; }
    }
  }
  size_t Pos_(const std::vector<size_t> &c) const {
    if (default_) shim::Fail("element of a default tensor");
    if (c.size() != shape_.size()) shim::Fail("element access with a wrong number of coordinates");
    size_t p = 0;
    for (size_t i = 0; i < c.size(); ++i) {
      if (c[i] >= shape_[i]) shim::Fail("element access out of range");
      p = p * shape_[i] + c[i];
    }
    return p;
  }
  void SetAt_(const std::vector<size_t> &c, size_t p, const ElemT &v) {
    QNT q = QNAt(c);
    if (has_div_ && div_ != q) {
      // a leftover hint on an all-zero tensor does not bind
      bool zero = std::all_of(data_.begin(), data_.end(), [](const ElemT &x) { return x == ElemT(0); });
      if (!zero && v != ElemT(0)) shim::Fail("element set outside the tensor's divergence");
      if (!zero) return;
    }
    has_div_ = true; div_ = q;
    data_[p] = v;
  }
  ElemT Scalar_() const {
    if (!idx_.empty()) shim::Fail("scalar access on a tensor with indices");
    return data_.empty() ? ElemT(0) : data_[0];
  }
  void CheckDiv_() const { (void) Div(); }

  shim::Live live_;
  mutable BlkView view_;
  IndexVec<QNT> idx_;
  ShapeT shape_;
  std::vector<ElemT> data_;
  bool default_ = true;
  bool has_div_ = false;
  QNT div_{};
};

template<typename E, typename Q>
inline std::ostream &operator<<(std::ostream &os, const QLTensor<E, Q> &t) { t.StreamWrite(os); return os; }
template<typename E, typename Q>
inline std::istream &operator>>(std::istream &is, QLTensor<E, Q> &t) { t.StreamRead(is); return is; }
template<typename E, typename Q>
inline Q Div(const QLTensor<E, Q> &t) { return t.Div(); }
template<typename E, typename Q>
inline QLTensor<E, Q> Dag(const QLTensor<E, Q> &t) { QLTensor<E, Q> r(t); r.Dag(); return r; }
template<typename Q>
inline QLTensor<QLTEN_Complex, Q> ToComplex(const QLTensor<QLTEN_Double, Q> &t) { return QLTensor<QLTEN_Complex, Q>(t); }

// ------------------------------------------------------------ contraction
namespace shim {
template<typename A, typename B, typename Q, typename C>
void ContractImpl(const QLTensor<A, Q> &a, const QLTensor<B, Q> &b,
                  const std::vector<size_t> &ca, const std::vector<size_t> &cb,
                  const std::vector<size_t> &fa, const std::vector<size_t> &fb, QLTensor<C, Q> *res) {
  Step();
  if (a.IsDefault() || b.IsDefault()) Fail("contraction of a default tensor");
  if (ca.size() != cb.size()) Fail("contraction with unequal numbers of axes");
  for (size_t i = 0; i < ca.size(); ++i) {
    if (ca[i] >= a.Rank() || cb[i] >= b.Rank()) Fail("contraction axis out of range");
    if (a.GetIndexes()[ca[i]] != InverseIndex(b.GetIndexes()[cb[i]])) Fail("contraction of indices that are not inverse to each other");
  }
  IndexVec<Q> idx;
  std::vector<size_t> sha, shb, shc;
  for (auto i : fa) { idx.push_back(a.GetIndexes()[i]); sha.push_back(a.GetShape()[i]); }
  for (auto i : fb) { idx.push_back(b.GetIndexes()[i]); shb.push_back(b.GetShape()[i]); }
  for (auto i : ca) shc.push_back(a.GetShape()[i]);
  QLTensor<C, Q> r(idx);
  auto st_of = [](const auto &t, const std::vector<size_t> &ax) {
    auto st = QLTensor<A, Q>::Strides_(t.GetShape());
    std::vector<size_t> o; for (auto i : ax) o.push_back(st[i]); return o;
  };
  std::vector<size_t> ra, rca, rb, rcb;
  auto list = [](const std::vector<size_t> &sh, const std::vector<size_t> &st) {
    std::vector<size_t> o; o.reserve(Prod(sh));
    QLTensor<A, Q>::Walk_(sh, st, [&](size_t x) { o.push_back(x); }); return o;
  };
  ra = list(sha, st_of(a, fa)); rca = list(shc, st_of(a, ca));
  rb = list(shb, st_of(b, fb)); rcb = list(shc, st_of(b, cb));
  // pack b as (contracted x free)
  std::vector<C> bm(rcb.size() * rb.size());
  for (size_t k = 0; k < rcb.size(); ++k) for (size_t j = 0; j < rb.size(); ++j) bm[k * rb.size() + j] = C(b.Raw()[rcb[k] + rb[j]]);
  for (size_t i = 0; i < ra.size(); ++i) {
    C *out = r.data_.data() + i * rb.size();
    for (size_t k = 0; k < rca.size(); ++k) {
      const A x = a.Raw()[ra[i] + rca[k]];
      if (x == A(0)) continue;
      const C xc = C(x);
      const C *bp = bm.data() + k * rb.size();
      for (size_t j = 0; j < rb.size(); ++j) out[j] += xc * bp[j];
    }
  }
  if (a.HasDivHint() && b.HasDivHint()) r.SetDivHint(a.DivHint() + b.DivHint());
  *res = std::move(r);
}
inline std::vector<size_t> Rest(size_t rank, const std::vector<size_t> &c) {
  std::vector<size_t> o;
  for (size_t i = 0; i < rank; ++i) if (std::find(c.begin(), c.end(), i) == c.end()) o.push_back(i);
  return o;
}
}

template<typename A, typename B, typename Q, typename C>
inline void Contract(const QLTensor<A, Q> *a, const QLTensor<B, Q> *b,
                     const std::vector<std::vector<size_t>> &axes, QLTensor<C, Q> *res) {
  if (axes.size() != 2) shim::Fail("contraction axes");
  shim::ContractImpl(*a, *b, axes[0], axes[1], shim::Rest(a->Rank(), axes[0]), shim::Rest(b->Rank(), axes[1]), res);
}
template<typename A, typename B, typename Q, typename C>
inline void Contract(const QLTensor<A, Q> *a, const std::vector<size_t> &ax, const QLTensor<B, Q> *b,
                     const std::vector<size_t> &bx, QLTensor<C, Q> *res) {
  Contract(a, b, {ax, bx}, res);
}
// Axes are cyclic; n axes from a_start / b_start are contracted, the free axes
// follow in cyclic order after the contracted ones.
template<typename E, typename Q, bool a_tail = true, bool b_head = true>
inline void Contract(const QLTensor<E, Q> &a, const QLTensor<E, Q> &b, const size_t a_start, const size_t b_start,
                     const size_t n, QLTensor<E, Q> &res) {
  auto cyc = [](size_t rank, size_t from, size_t cnt) {
    std::vector<size_t> o; for (size_t i = 0; i < cnt; ++i) o.push_back((from + i) % rank); return o;
  };
  shim::ContractImpl(a, b, cyc(a.Rank(), a_start, n), cyc(b.Rank(), b_start, n),
                     cyc(a.Rank(), a_start + n, a.Rank() - n), cyc(b.Rank(), b_start + n, b.Rank() - n), &res);
}

// --------------------------------------------------------- linear algebra
namespace shim {
// One-sided Jacobi SVD of an m x n matrix: a = u diag(s) vt, k = min(m, n).
template<typename E>
void SmallSVD(const std::vector<E> &a, size_t m, size_t n, std::vector<E> &u, std::vector<double> &s, std::vector<E> &vt) {
  bool tr = m < n;
  size_t M = tr ? n : m, K = tr ? m : n;     // work on M x K, M >= K
  std::vector<E> w(M * K), v(K * K, E(0));
  for (size_t i = 0; i < M; ++i) for (size_t j = 0; j < K; ++j) w[i * K + j] = tr ? Conj(a[j * n + i]) : a[i * n + j];
  for (size_t i = 0; i < K; ++i) v[i * K + i] = E(1);
  for (int sweep = 0; sweep < 60; ++sweep) {
    double worst = 0;
    for (size_t p = 0; p < K; ++p) for (size_t q = p + 1; q < K; ++q) {
      double al = 0, be = 0; E ga(0);
      for (size_t i = 0; i < M; ++i) { al += Abs2(w[i * K + p]); be += Abs2(w[i * K + q]); ga += Conj(w[i * K + p]) * w[i * K + q]; }
      double g = std::abs(ga), ab = std::sqrt(al) * std::sqrt(be);   // std::abs does not underflow
      if (g < 1e-290 || g <= 1e-16 * ab) continue;
      worst = std::max(worst, g / ab);
      E ph = ga * (1.0 / g);
      double ze = (be - al) / (2 * g);
      double t = (ze >= 0 ? 1.0 : -1.0) / (std::fabs(ze) + std::sqrt(1 + ze * ze));
      double c = 1 / std::sqrt(1 + t * t), sn = c * t;
      for (int z = 0; z < 2; ++z) {
        std::vector<E> &x = z ? v : w; size_t R = z ? K : M;
        for (size_t i = 0; i < R; ++i) {
          E xp = x[i * K + p], xq = x[i * K + q] * Conj(ph);
          x[i * K + p] = c * xp - sn * xq;
          x[i * K + q] = sn * xp + c * xq;
        }
      }
    }
    if (worst < 1e-15) break;
  }
  std::vector<double> nrm(K, 0);
  double top = 0;
  for (size_t j = 0; j < K; ++j) {
    for (size_t i = 0; i < M; ++i) nrm[j] += Abs2(w[i * K + j]);
    nrm[j] = std::sqrt(nrm[j]); top = std::max(top, nrm[j]);
  }
  std::vector<size_t> ord(K); std::iota(ord.begin(), ord.end(), 0);
  std::stable_sort(ord.begin(), ord.end(), [&](size_t x, size_t y) { return nrm[x] > nrm[y]; });
  std::vector<E> uu(M * K, E(0)); s.assign(K, 0);
  for (size_t jj = 0; jj < K; ++jj) {
    size_t j = ord[jj];
    if (nrm[j] > 1e-14 * top && nrm[j] > 0) {
      s[jj] = nrm[j];
      for (size_t i = 0; i < M; ++i) uu[i * K + jj] = w[i * K + j] * (1.0 / nrm[j]);
    } else {
      s[jj] = nrm[j] > 1e-300 ? nrm[j] : 0.0;
    }
  }
  // complete / re-orthogonalise the columns of negligible weight
  for (size_t jj = 0; jj < K; ++jj) {
    if (nrm[ord[jj]] > 1e-14 * top && nrm[ord[jj]] > 0) continue;
    for (size_t e = 0; e < M; ++e) {
      std::vector<E> x(M, E(0)); x[e] = E(1);
      for (int pass = 0; pass < 2; ++pass) for (size_t l = 0; l < K; ++l) {
        if (l >= jj && !(nrm[ord[l]] > 1e-14 * top && nrm[ord[l]] > 0)) continue;
        E d(0); for (size_t i = 0; i < M; ++i) d += Conj(uu[i * K + l]) * x[i];
        for (size_t i = 0; i < M; ++i) x[i] -= d * uu[i * K + l];
      }
      double nx = 0; for (auto &y : x) nx += Abs2(y);
      if (nx < 1e-4 / double(M)) continue;
      for (size_t i = 0; i < M; ++i) uu[i * K + jj] = x[i] * (1.0 / std::sqrt(nx));
      break;
    }
  }
  std::vector<E> vv(K * K);
  for (size_t i = 0; i < K; ++i) for (size_t jj = 0; jj < K; ++jj) vv[i * K + jj] = v[i * K + ord[jj]];
  if (!tr) {            // a = uu s vv^H
    u = uu; vt.assign(K * n, E(0));
    for (size_t k = 0; k < K; ++k) for (size_t j = 0; j < n; ++j) vt[k * n + j] = Conj(vv[j * K + k]);
  } else {              // a^H = uu s vv^H -> a = vv s uu^H
    u.assign(m * K, E(0)); vt.assign(K * n, E(0));
    for (size_t i = 0; i < m; ++i) for (size_t k = 0; k < K; ++k) u[i * K + k] = vv[i * K + k];
    for (size_t k = 0; k < K; ++k) for (size_t j = 0; j < n; ++j) vt[k * n + j] = Conj(uu[j * K + k]);
  }
}
// Thin QR by Gram-Schmidt with reorthogonalisation; rank deficient columns are
// completed with orthonormal vectors (zero rows in r).
template<typename E>
void SmallQR(const std::vector<E> &a, size_t m, size_t n, std::vector<E> &q, std::vector<E> &r) {
  size_t K = std::min(m, n);
  q.assign(m * K, E(0)); r.assign(K * n, E(0));
  double top = 0; for (auto &x : a) top = std::max(top, Abs2(x));
  top = std::sqrt(top);
  size_t have = 0;
  for (size_t j = 0; j < n; ++j) {
    std::vector<E> x(m); for (size_t i = 0; i < m; ++i) x[i] = a[i * n + j];
    for (int pass = 0; pass < 2; ++pass) for (size_t l = 0; l < have; ++l) {
      E d(0); for (size_t i = 0; i < m; ++i) d += Conj(q[i * K + l]) * x[i];
      r[l * n + j] += d;
      for (size_t i = 0; i < m; ++i) x[i] -= d * q[i * K + l];
    }
    double nx = 0; for (auto &y : x) nx += Abs2(y); nx = std::sqrt(nx);
    if (have < K && nx > 1e-14 * top && nx > 0) {
      for (size_t i = 0; i < m; ++i) q[i * K + have] = x[i] * (1.0 / nx);
      r[have * n + j] += E(nx);
      ++have;
    }
  }
  for (size_t e = 0; have < K && e < m; ++e) {
    std::vector<E> x(m, E(0)); x[e] = E(1);
    for (int pass = 0; pass < 2; ++pass) for (size_t l = 0; l < have; ++l) {
      E d(0); for (size_t i = 0; i < m; ++i) d += Conj(q[i * K + l]) * x[i];
      for (size_t i = 0; i < m; ++i) x[i] -= d * q[i * K + l];
    }
    double nx = 0; for (auto &y : x) nx += Abs2(y); nx = std::sqrt(nx);
    if (nx < 1e-2 / std::sqrt(double(m))) continue;
    for (size_t i = 0; i < m; ++i) q[i * K + have] = x[i] * (1.0 / nx);
    ++have;
  }
}
// Blocks of a tensor split into left (first ldims) and right indices.
template<typename E, typename Q>
struct Split {
  size_t L = 1, R = 1;
  struct Blk { Q mid; std::vector<size_t> rows, cols; };
  std::vector<Blk> blks;
  // qn carried by the new OUT index of the left factor is lqndiv - rowdiv
  Split(const QLTensor<E, Q> &t, size_t ldims, const Q &lqndiv) {
    if (t.IsDefault()) Fail("decomposition of a default tensor");
    if (ldims == 0 || ldims >= t.Rank()) Fail("decomposition with wrong ldims");
    const auto &sh = t.GetShape();
    for (size_t i = 0; i < sh.size(); ++i) (i < ldims ? L : R) *= sh[i];
    auto div_of = [&](size_t from, size_t to, size_t pos) {
      Q q;
      for (size_t k = to; k-- > from;) {
        size_t c = pos % sh[k]; pos /= sh[k];
        q += SignedQN(t.GetIndexes()[k], t.GetIndexes()[k].SctOf(c));
      }
      return q;
    };
    Q div = t.Div();
    std::vector<Q> rowq, colq;
    for (size_t i = 0; i < L; ++i) rowq.push_back(lqndiv - div_of(0, ldims, i));
    for (size_t j = 0; j < R; ++j) colq.push_back(div_of(ldims, sh.size(), j) - (div - lqndiv));
    for (size_t i = 0; i < L; ++i) {
      size_t k = 0; while (k < blks.size() && !(blks[k].mid == rowq[i])) ++k;
      if (k == blks.size()) blks.push_back(Blk{rowq[i], {}, {}});
      blks[k].rows.push_back(i);
    }
    for (auto &b : blks) for (size_t j = 0; j < R; ++j) if (colq[j] == b.mid) b.cols.push_back(j);
    // drop the blocks without data
    std::vector<Blk> keep;
    for (auto &b : blks) {
      bool any = false;
      for (auto i : b.rows) for (auto j : b.cols) any |= t.Raw()[i * R + j] != E(0);
      if (any) keep.push_back(b);
    }
    if (keep.empty()) for (auto &b : blks) if (!b.rows.empty() && !b.cols.empty()) { keep.push_back(b); break; }
    if (keep.empty()) Fail("decomposition of a tensor without blocks");
    blks = keep;
    std::stable_sort(blks.begin(), blks.end(), [](const Blk &x, const Blk &y) { return x.mid < y.mid; });
  }
  std::vector<E> Mat(const QLTensor<E, Q> &t, const Blk &b) const {
    std::vector<E> m(b.rows.size() * b.cols.size());
    for (size_t i = 0; i < b.rows.size(); ++i) for (size_t j = 0; j < b.cols.size(); ++j)
      m[i * b.cols.size() + j] = t.Raw()[b.rows[i] * R + b.cols[j]];
    return m;
  }
};
template<typename E>
inline void CheckFinite(const std::vector<E> &v, const char *what) {
  for (auto &x : v) if (!std::isfinite(Abs2(x))) Fail(std::string(what) + " of a tensor that is not finite");
}
}

template<typename E, typename Q>
void QR(const QLTensor<E, Q> *t, const size_t ldims, const Q &lqndiv, QLTensor<E, Q> *pq, QLTensor<E, Q> *pr) {
  shim::Step();
  shim::CheckFinite(t->Raw(), "QR");
  shim::Split<E, Q> sp(*t, ldims, lqndiv);
  QNSectorVec<Q> sc; std::vector<std::vector<E>> qs, rs;
  for (auto &b : sp.blks) {
    std::vector<E> q, r;
    shim::SmallQR(sp.Mat(*t, b), b.rows.size(), b.cols.size(), q, r);
    sc.emplace_back(b.mid, std::min(b.rows.size(), b.cols.size())); qs.push_back(q); rs.push_back(r);
  }
  Index<Q> mo(sc, OUT), mi(sc, IN);
  IndexVec<Q> qi(t->GetIndexes().begin(), t->GetIndexes().begin() + ldims), ri{mi};
  qi.push_back(mo);
  ri.insert(ri.end(), t->GetIndexes().begin() + ldims, t->GetIndexes().end());
  QLTensor<E, Q> q(qi), r(ri);
  size_t off = 0, D = mo.dim();
  for (size_t k = 0; k < sp.blks.size(); ++k) {
    auto &b = sp.blks[k]; size_t d = sc[k].dim(), n = b.cols.size();
    for (size_t i = 0; i < b.rows.size(); ++i) for (size_t x = 0; x < d; ++x) q.data_[b.rows[i] * D + off + x] = qs[k][i * d + x];
    for (size_t x = 0; x < d; ++x) for (size_t j = 0; j < n; ++j) r.data_[(off + x) * sp.R + b.cols[j]] = rs[k][x * n + j];
    off += d;
  }
  q.SetDivHint(lqndiv); r.SetDivHint(t->Div() - lqndiv);
  *pq = std::move(q); *pr = std::move(r);
}

template<typename E, typename Q>
void SVD(const QLTensor<E, Q> *t, const size_t ldims, const Q &lqndiv, const double trunc_err,
         const size_t Dmin, const size_t Dmax, QLTensor<E, Q> *pu, QLTensor<QLTEN_Double, Q> *ps,
         QLTensor<E, Q> *pvt, QLTEN_Double *actual_trunc_err, size_t *bond_dim) {
  shim::Step();
  shim::CheckFinite(t->Raw(), "SVD");
  shim::Split<E, Q> sp(*t, ldims, lqndiv);
  struct One { std::vector<E> u, vt; std::vector<double> s; size_t keep = 0; };
  std::vector<One> one(sp.blks.size());
  std::vector<std::pair<double, size_t>> all;
  double tot = 0;
  for (size_t k = 0; k < sp.blks.size(); ++k) {
    shim::SmallSVD(sp.Mat(*t, sp.blks[k]), sp.blks[k].rows.size(), sp.blks[k].cols.size(), one[k].u, one[k].s, one[k].vt);
    for (double s : one[k].s) { all.emplace_back(s, k); tot += s * s; }
  }
  std::stable_sort(all.begin(), all.end(), [](const auto &x, const auto &y) { return x.first > y.first; });
  // keep at least Dmin, at most Dmax, as few as the truncation error allows
  size_t keep = 0; double kept = 0;
  auto err_at = [&](size_t n) { double e = 0; for (size_t i = all.size(); i-- > n;) e += all[i].first * all[i].first; return tot > 0 ? e / tot : 0.0; };
  keep = std::min(all.size(), std::max<size_t>(Dmin, 1));
  while (keep < all.size() && keep < Dmax && err_at(keep) > trunc_err) ++keep;
  if (keep > Dmax && Dmax > 0) keep = Dmax;
  for (size_t i = 0; i < keep; ++i) { one[all[i].second].keep++; kept += all[i].first * all[i].first; }
  *actual_trunc_err = err_at(keep);
  *bond_dim = keep;
  QNSectorVec<Q> sc;
  for (size_t k = 0; k < one.size(); ++k) if (one[k].keep) sc.emplace_back(sp.blks[k].mid, one[k].keep);
  Index<Q> mo(sc, OUT), mi(sc, IN);
  IndexVec<Q> ui(t->GetIndexes().begin(), t->GetIndexes().begin() + ldims), vi{mi};
  ui.push_back(mo);
  vi.insert(vi.end(), t->GetIndexes().begin() + ldims, t->GetIndexes().end());
  QLTensor<E, Q> u(ui), vt(vi); QLTensor<QLTEN_Double, Q> s({mi, mo});
  size_t off = 0, D = mo.dim();
  for (size_t k = 0; k < one.size(); ++k) {
    auto &b = sp.blks[k]; size_t K = one[k].s.size(), d = one[k].keep, n = b.cols.size();
    for (size_t i = 0; i < b.rows.size(); ++i) for (size_t x = 0; x < d; ++x) u.data_[b.rows[i] * D + off + x] = one[k].u[i * K + x];
    for (size_t x = 0; x < d; ++x) {
      s.data_[(off + x) * D + off + x] = one[k].s[x];
      for (size_t j = 0; j < n; ++j) vt.data_[(off + x) * sp.R + b.cols[j]] = one[k].vt[x * n + j];
    }
    off += d;
  }
  u.SetDivHint(lqndiv); s.SetDivHint(Q()); vt.SetDivHint(t->Div() - lqndiv);
  *pu = std::move(u); *ps = std::move(s); *pvt = std::move(vt);
}

// ------------------------------------------------------- other manipulations
template<typename E, typename Q>
QLTensor<E, Q> IndexCombine(const Index<Q> &i1, const Index<Q> &i2, const TenIndexDirType dir) {
  std::vector<Q> qns; std::vector<std::vector<std::pair<size_t, size_t>>> els;
  for (size_t x = 0; x < i1.dim(); ++x) for (size_t y = 0; y < i2.dim(); ++y) {
    Q q = shim::SignedQN(i1, i1.SctOf(x)) + shim::SignedQN(i2, i2.SctOf(y));
    if (dir == OUT) q = -q;
    size_t k = 0; while (k < qns.size() && !(qns[k] == q)) ++k;
    if (k == qns.size()) { qns.push_back(q); els.emplace_back(); }
    els[k].emplace_back(x, y);
  }
  QNSectorVec<Q> sc;
  for (size_t k = 0; k < qns.size(); ++k) sc.emplace_back(qns[k], els[k].size());
  QLTensor<E, Q> t({i1, i2, Index<Q>(sc, dir)});
  size_t z = 0;
  for (auto &v : els) for (auto &p : v) t({p.first, p.second, z++}) = E(1);
  return t;
}

// Direct sum of a and b along the given axes (the other indices must agree): sectors of
// equal charge are merged, a's part first.  With only_new, b contributes only the charges
// that a lacks.
namespace shim {
template<typename Q>
Index<Q> ExpandIndex(const Index<Q> &a, const Index<Q> &b, bool only_new, std::vector<size_t> &ma, std::vector<size_t> &mb) {
  if (a.GetDir() != b.GetDir()) Fail("expansion of indices of different direction");
  size_t na = a.GetQNSctNum(), nb = b.GetQNSctNum(); std::vector<size_t> owner(nb, SIZE_MAX);
  for (size_t y = 0; y < nb; ++y) for (size_t x = 0; x < na && owner[y] == SIZE_MAX; ++x) if (a.GetQNSct(x).GetQn() == b.GetQNSct(y).GetQn()) owner[y] = x;
  std::vector<size_t> aoff(na), boff(nb); size_t o = 0;
  for (size_t x = 0; x < na; ++x) aoff[x] = x ? aoff[x - 1] + a.GetQNSct(x - 1).dim() : 0;
  for (size_t y = 0; y < nb; ++y) boff[y] = y ? boff[y - 1] + b.GetQNSct(y - 1).dim() : 0;
  ma.assign(a.dim(), SIZE_MAX); mb.assign(b.dim(), SIZE_MAX);
  QNSectorVec<Q> sc;
  for (size_t x = 0; x < na; ++x) {
    size_t d = a.GetQNSct(x).dim(), tot = d;
    for (size_t k = 0; k < d; ++k) ma[aoff[x] + k] = o++;
    if (!only_new) for (size_t y = 0; y < nb; ++y) if (owner[y] == x) { for (size_t k = 0; k < b.GetQNSct(y).dim(); ++k) mb[boff[y] + k] = o++; tot += b.GetQNSct(y).dim(); }
    sc.emplace_back(a.GetQNSct(x).GetQn(), tot);
  }
  for (size_t y = 0; y < nb; ++y) if (owner[y] == SIZE_MAX) { for (size_t k = 0; k < b.GetQNSct(y).dim(); ++k) mb[boff[y] + k] = o++; sc.emplace_back(b.GetQNSct(y)); }
  return Index<Q>(sc, a.GetDir());
}
template<typename E, typename Q>
void Expand_(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *res, bool only_new) {
  if (a->IsDefault() || b->IsDefault()) Fail("expansion of a default tensor");
  if (a->Rank() != b->Rank()) Fail("expansion of tensors of different rank");
  std::vector<bool> ex(a->Rank(), false);
  for (auto x : axes) { if (x >= a->Rank()) Fail("expansion axis out of range"); ex[x] = true; }
  IndexVec<Q> idx; std::vector<std::vector<size_t>> ma(a->Rank()), mb(a->Rank());
  for (size_t i = 0; i < a->Rank(); ++i) {
    auto &ia = a->GetIndexes()[i]; auto &ib = b->GetIndexes()[i];
    if (!ex[i]) {
      if (ia != ib) Fail("expansion with different untouched indices");
      idx.push_back(ia); for (size_t k = 0; k < ia.dim(); ++k) { ma[i].push_back(k); mb[i].push_back(k); }
    } else idx.push_back(ExpandIndex(ia, ib, only_new, ma[i], mb[i]));
  }
  bool za = a->Get2Norm() == 0.0, zb = b->Get2Norm() == 0.0;
  if (!za && !zb && a->Div() != b->Div()) Fail("expansion of tensors of different divergence");
  QLTensor<E, Q> r(idx);
  auto add = [&](const QLTensor<E, Q> *t, const std::vector<std::vector<size_t>> &m) {
    t->ForEach_([&](const std::vector<size_t> &c, size_t p) {
      std::vector<size_t> d(c); for (size_t i = 0; i < d.size(); ++i) { d[i] = m[i][c[i]]; if (d[i] == SIZE_MAX) return; }
      r.data_[r.Pos_(d)] += t->Raw()[p];
    });
  };
  add(a, ma); add(b, mb);
  if (a->HasDivHint()) r.SetDivHint(a->Div()); else if (b->HasDivHint()) r.SetDivHint(b->Div());
  *res = std::move(r);
}
}
template<typename E, typename Q>
void Expand(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *res) { shim::Expand_(a, b, axes, res, false); }
template<typename E, typename Q>
void ExpandQNBlocks(const QLTensor<E, Q> *a, const QLTensor<E, Q> *b, const std::vector<size_t> &axes, QLTensor<E, Q> *res) { shim::Expand_(a, b, axes, res, true); }

namespace shim {
template<typename E, typename Q, typename C>
void LinComb(size_t n, const C *coef, const std::vector<QLTensor<E, Q> *> &ts, const E beta, QLTensor<E, Q> *res) {
  if (n > ts.size()) Fail("linear combination of too few tensors");
  for (size_t i = 0; i < n; ++i) if (ts[i] == nullptr || ts[i]->IsDefault()) Fail("linear combination of a missing tensor");
  QLTensor<E, Q> r;
  if (res->IsDefault()) { if (n == 0) Fail("empty linear combination"); r = QLTensor<E, Q>(ts[0]->GetIndexes()); }
  else r = *res;
  if (beta == E(0)) r.ClearData_(); else r *= beta;
  for (size_t i = 0; i < n; ++i) {
    if (ts[i]->GetIndexes() != r.GetIndexes()) Fail("linear combination of tensors with different indices");
    for (size_t k = 0; k < r.data_.size(); ++k) r.data_[k] += E(coef[i]) * ts[i]->Raw()[k];
    if (!r.HasDivHint() && ts[i]->HasDivHint()) r.SetDivHint(ts[i]->DivHint());
  }
  r.CheckDiv_();
  *res = std::move(r);
}
}
template<typename E, typename Q>
inline void LinearCombine(const std::vector<QLTEN_Double> &coefs, const std::vector<QLTensor<E, Q> *> &ts,
                          const typename shim::Id<E>::type beta, QLTensor<E, Q> *res) {
  if (coefs.size() != ts.size()) shim::Fail("linear combination with a wrong number of coefficients");
  shim::LinComb(coefs.size(), coefs.data(), ts, E(beta), res);
}
template<typename E, typename Q, typename C, typename = std::enable_if_t<std::is_same_v<C, QLTEN_Complex>>>
inline void LinearCombine(const std::vector<C> &coefs, const std::vector<QLTensor<E, Q> *> &ts,
                          const typename shim::Id<E>::type beta, QLTensor<E, Q> *res) {
  if (coefs.size() != ts.size()) shim::Fail("linear combination with a wrong number of coefficients");
  shim::LinComb(coefs.size(), coefs.data(), ts, E(beta), res);
}
template<typename E, typename Q, typename C>
inline void LinearCombine(const size_t n, const C *coefs, const std::vector<QLTensor<E, Q> *> &ts,
                          const typename shim::Id<E>::type beta, QLTensor<E, Q> *res) {
  shim::LinComb(n, coefs, ts, E(beta), res);
}
template<typename E, typename Q>
inline void LinearCombine(const QLTEN_Double a, const QLTensor<E, Q> &x, const typename shim::Id<E>::type beta, QLTensor<E, Q> *res) {
  std::vector<QLTensor<E, Q> *> v{const_cast<QLTensor<E, Q> *>(&x)};
  shim::LinComb(1, &a, v, E(beta), res);
}

// ------------------------------------------------- index fusion, executors
struct QNSctsOffsetInfo { size_t blk_idx1 = 0, blk_idx2 = 0, offset = 0; };
template<typename Q>
Index<Q> FuseTwoIndexAndRecordInfo(const Index<Q> &a, const Index<Q> &b, std::vector<QNSctsOffsetInfo> &info) {
  if (a.GetDir() != b.GetDir()) shim::Fail("fusion of indices of different direction");
  std::vector<Q> qns; std::vector<size_t> dims;
  info.clear();
  for (size_t x = 0; x < a.GetQNSctNum(); ++x) for (size_t y = 0; y < b.GetQNSctNum(); ++y) {
    Q q = a.GetQNSct(x).GetQn() + b.GetQNSct(y).GetQn();
    size_t k = 0; while (k < qns.size() && !(qns[k] == q)) ++k;
    if (k == qns.size()) { qns.push_back(q); dims.push_back(0); }
    QNSctsOffsetInfo o; o.blk_idx1 = x; o.blk_idx2 = y; o.offset = dims[k];
    info.push_back(o);
    dims[k] += a.GetQNSct(x).dim() * b.GetQNSct(y).dim();
  }
  QNSectorVec<Q> sc; for (size_t k = 0; k < qns.size(); ++k) sc.emplace_back(qns[k], dims[k]);
  return Index<Q>(sc, a.GetDir());
}

// sectors of b that a lacks come after a's; the map gives their place (-1: not taken)
template<typename Q>
Index<Q> ExpandIndexMCAndRecordInfo(const Index<Q> &a, const Index<Q> &b, std::map<size_t, int> &where) {
  std::vector<size_t> ma, mb; Index<Q> r = shim::ExpandIndex(a, b, true, ma, mb); size_t o = 0; int next = int(a.GetQNSctNum());
  where.clear();
  for (size_t y = 0; y < b.GetQNSctNum(); ++y) { where[y] = mb[o] == SIZE_MAX ? -1 : next++; o += b.GetQNSct(y).dim(); }
  return r;
}

enum ExecutorStatus { INITING, INITED, EXEING, FINISH };
class Executor {
 public:
  Executor() : status_(INITING) {}
  virtual ~Executor() = default;
  virtual void Execute() = 0;
  ExecutorStatus GetStatus() const { return status_; }
  void SetStatus(const ExecutorStatus s) { status_ = s; }
 private:
  ExecutorStatus status_;
};
} // qlten
#include "qlten/mpi_tensor.h"
#endif
