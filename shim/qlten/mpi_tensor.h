// Tensors on the wire, the one-sector contraction and the distributed decomposition.
#ifndef SHIM_MPI_TENSOR_H
#define SHIM_MPI_TENSOR_H
namespace qlten {
using ::MPI_Bcast; using ::MPI_Send; using ::MPI_Recv; using ::MPI_Barrier;
namespace shim {
template<typename E, typename Q>
std::string TenKind(const char *what) { return std::string(what) + (std::is_same_v<E, QLTEN_Double> ? " real " : " complex ") + std::to_string(sizeof(Q)); }
template<typename E, typename Q>
shim_mpi::Msg Pack(const QLTensor<E, Q> &t, const char *what) { return shim_mpi::Msg{TenKind<E, Q>(what), std::make_shared<QLTensor<E, Q>>(t), 1}; }
}
template<typename E, typename Q>
inline void QLTensor<E, Q>::MPI_Bcast(int root, const MPI_Comm &) {
  auto &w = shim_mpi::W(); bool me = w.Rank() == root;
  auto m = w.Coll("bcast " + shim::TenKind<E, Q>("tensor"), root, me ? shim::Pack(*this, "tensor") : shim_mpi::Msg{});
  if (!me) *this = *std::static_pointer_cast<QLTensor>(m.data);
}
template<typename E, typename Q>
inline void MPI_Bcast(QLTensor<E, Q> &t, const int root, const MPI_Comm &comm) { t.MPI_Bcast(root, comm); }
template<typename E, typename Q>
inline void QLTensor<E, Q>::MPI_Send(int dest, int tag, const MPI_Comm &) const { shim_mpi::W().Send(dest, tag, shim::Pack(*this, "tensor")); }
template<typename E, typename Q>
inline MPI_Status QLTensor<E, Q>::MPI_Recv(int src, int tag, const MPI_Comm &) {
  MPI_Status s; auto m = shim_mpi::W().Recv(src, tag, shim::TenKind<E, Q>("tensor"), s); *this = *std::static_pointer_cast<QLTensor>(m.data); return s;
}
// Only the blocks travel: the receiver's indices say where they belong.
template<typename E, typename Q>
inline void QLTensor<E, Q>::BlkView::MPI_Send(const MPI_Comm &, int dest, int tag) {
  if (t->IsDefault()) shim::Fail("sending the blocks of a default tensor");
  shim_mpi::W().Send(dest, tag, shim::Pack(*t, "blocks"));
}
template<typename E, typename Q>
inline MPI_Status QLTensor<E, Q>::BlkView::MPI_Recv(const MPI_Comm &, int src, int tag) {
  MPI_Status s; auto m = shim_mpi::W().Recv(src, tag, shim::TenKind<E, Q>("blocks"), s); auto o = std::static_pointer_cast<QLTensor>(m.data);
  if (t->IsDefault()) shim::Fail("receiving blocks into a default tensor");
  if (t->Rank() != o->Rank()) shim::Fail("receiving blocks of another rank");
  for (size_t i = 0; i < t->Rank(); ++i) if (t->GetIndexes()[i].GetQNScts() != o->GetIndexes()[i].GetQNScts()) shim::Fail("receiving blocks of a tensor with other indices");
  t->data_ = o->data_; t->has_div_ = o->has_div_; t->div_ = o->div_; t->CheckDiv_(); return s;
}
// contraction of one sector of index `idx_a` of a with b
template<typename E, typename Q>
class TensorContraction1SectorExecutor : public Executor {
 public:
  using Ten = QLTensor<E, Q>;
  TensorContraction1SectorExecutor(const Ten *a, const size_t idx_a, const size_t sct, const Ten *b, const std::vector<std::vector<size_t>> &axes, Ten *c)
      : a_(a), b_(b), c_(c), idx_(idx_a), sct_(sct), axes_(axes) { SetStatus(INITED); }
  void SetSelectedQNSect(const size_t s) { sct_ = s; SetStatus(INITED); }
  void Execute() override {
    SetStatus(EXEING);
    if (a_->IsDefault() || b_->IsDefault()) shim::Fail("contraction of a default tensor");
    const auto &ix = a_->GetIndex(idx_);
    if (sct_ >= ix.GetQNSctNum()) shim::Fail("selected sector out of range");
    for (auto x : axes_.at(0)) if (x == idx_) shim::Fail("selected index is contracted");
    Ten s(*a_);
    s.ForEach_([&](const std::vector<size_t> &c, size_t p) { if (ix.SctOf(c[idx_]) != sct_) s.data_[p] = E(0); });
    Contract(&s, b_, axes_, c_);
    SetStatus(FINISH);
  }
 private:
  const Ten *a_; const Ten *b_; Ten *c_; size_t idx_, sct_; std::vector<std::vector<size_t>> axes_;
};
template<typename E, typename Q>
inline void CollectiveLinearCombine(const std::vector<QLTensor<E, Q>> &v, QLTensor<E, Q> &res) {
  if (v.empty()) shim::Fail("empty sum");
  std::vector<QLTensor<E, Q> *> p; for (auto &t : v) p.push_back(const_cast<QLTensor<E, Q> *>(&t));
  std::vector<QLTEN_Double> one(v.size(), 1.0); LinearCombine(one, p, E(0), &res);
}
template<typename E, typename Q>
void MPISVDMaster(const QLTensor<E, Q> *t, const size_t ldims, const Q &lqndiv, const double trunc_err, const size_t Dmin, const size_t Dmax,
                  QLTensor<E, Q> *pu, QLTensor<QLTEN_Double, Q> *ps, QLTensor<E, Q> *pvt, QLTEN_Double *err, size_t *D, const MPI_Comm &) {
  shim_mpi::W().Coll(std::is_same_v<E, QLTEN_Double> ? "svd real" : "svd complex", kMPIMasterRank, shim_mpi::Msg{});
  SVD(t, ldims, lqndiv, trunc_err, Dmin, Dmax, pu, ps, pvt, err, D);
}
template<typename E>
void MPISVDSlave(const MPI_Comm &) { shim_mpi::W().Coll(std::is_same_v<E, QLTEN_Double> ? "svd real" : "svd complex", kMPIMasterRank, shim_mpi::Msg{}); }
} // qlten
#endif
