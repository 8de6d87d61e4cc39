// Message passing for the stand-in tensor library.  The calls are forwarded to a
// "world" installed by the explorer, which owns the schedule; without one they fail.
#ifndef SHIM_MPI_CORE_H
#define SHIM_MPI_CORE_H
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

typedef int MPI_Comm;
typedef int MPI_Datatype;
struct MPI_Status { int MPI_SOURCE = -1, MPI_TAG = -1, MPI_ERROR = 0; };
enum { MPI_COMM_WORLD = 0, MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_SUCCESS = 0 };
enum { MPI_INT = 101, MPI_DOUBLE, MPI_UNSIGNED_LONG_LONG, MPI_UNSIGNED_LONG, MPI_CHAR, MPI_CXX_BOOL };
#define MPI_STATUS_IGNORE (static_cast<MPI_Status *>(nullptr))
#define HANDLE_MPI_ERROR(x) do { if ((x) != MPI_SUCCESS) throw std::runtime_error("MPI error"); } while (0)

namespace shim_mpi {
struct Msg { std::string kind; std::shared_ptr<void> data; size_t count = 0; };
struct World {
  virtual ~World() = default;
  virtual int Rank() = 0;
  virtual int Size() = 0;
  virtual void Send(int dest, int tag, Msg m) = 0;
  virtual Msg Recv(int source, int tag, const std::string &kind, MPI_Status &st) = 0;
  // root's message is handed to everybody; kind names the collective
  virtual Msg Coll(const std::string &kind, int root, Msg m) = 0;
  virtual void Abort(int code) = 0;
  virtual void FileOp() {}   // a tensor is about to be read from or written to a file
};
inline World *&Cur() { static World *w = nullptr; return w; }
inline World &W() { if (!Cur()) throw std::logic_error("message passing without a world"); return *Cur(); }
inline size_t SizeOf(MPI_Datatype t) { return t == MPI_INT ? sizeof(int) : t == MPI_DOUBLE ? sizeof(double) : t == MPI_CHAR || t == MPI_CXX_BOOL ? 1 : sizeof(unsigned long long); }
inline Msg Raw(const void *p, int n, MPI_Datatype t) {
  auto v = std::make_shared<std::vector<char>>(size_t(n) * SizeOf(t)); if (n) memcpy(v->data(), p, v->size());
  return Msg{"raw" + std::to_string(t), v, size_t(n)};
}
inline void UnRaw(const Msg &m, void *p, int n) {
  auto v = std::static_pointer_cast<std::vector<char>>(m.data);
  if (m.count > size_t(n)) throw std::logic_error("message truncated: " + std::to_string(m.count) + " elements into a buffer of " + std::to_string(n));
  if (!v->empty()) memcpy(p, v->data(), v->size());
}
}
inline int MPI_Comm_rank(MPI_Comm, int *r) { *r = shim_mpi::W().Rank(); return MPI_SUCCESS; }
inline int MPI_Comm_size(MPI_Comm, int *n) { *n = shim_mpi::W().Size(); return MPI_SUCCESS; }
inline int MPI_Send(const void *p, int n, MPI_Datatype t, int dest, int tag, MPI_Comm) { shim_mpi::W().Send(dest, tag, shim_mpi::Raw(p, n, t)); return MPI_SUCCESS; }
inline int MPI_Recv(void *p, int n, MPI_Datatype t, int src, int tag, MPI_Comm, MPI_Status *st) {
  MPI_Status s; auto m = shim_mpi::W().Recv(src, tag, "raw" + std::to_string(t), s); shim_mpi::UnRaw(m, p, n); if (st) *st = s; return MPI_SUCCESS;
}
inline int MPI_Bcast(void *p, int n, MPI_Datatype t, int root, MPI_Comm) {
  auto m = shim_mpi::W().Coll("bcast raw" + std::to_string(t) + " x" + std::to_string(n), root, shim_mpi::W().Rank() == root ? shim_mpi::Raw(p, n, t) : shim_mpi::Msg{});
  if (shim_mpi::W().Rank() != root) shim_mpi::UnRaw(m, p, n);
  return MPI_SUCCESS;
}
inline int MPI_Barrier(MPI_Comm) { shim_mpi::W().Coll("barrier", -1, {}); return MPI_SUCCESS; }
inline int MPI_Abort(MPI_Comm, int code) { shim_mpi::W().Abort(code); return MPI_SUCCESS; }
inline int MPI_Init(int *, char ***) { return MPI_SUCCESS; }
inline int MPI_Finalize() { return MPI_SUCCESS; }

namespace qlten {
const int kMPIMasterRank = 0;
namespace hp_numeric {
inline void MPI_Send(const size_t n, const int dest, const int tag, const MPI_Comm &comm) { unsigned long long v = n; ::MPI_Send(&v, 1, MPI_UNSIGNED_LONG_LONG, dest, tag, comm); }
inline MPI_Status MPI_Recv(size_t &n, const int src, const int tag, const MPI_Comm &comm) {
  MPI_Status s; unsigned long long v = 0; ::MPI_Recv(&v, 1, MPI_UNSIGNED_LONG_LONG, src, tag, comm, &s); n = v; return s;
}
inline int MPI_Bcast(double *p, const int n, const int root, const MPI_Comm &comm) { return ::MPI_Bcast(p, n, MPI_DOUBLE, root, comm); }
}
}
#endif
