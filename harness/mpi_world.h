// Ranks as fibers in one thread, under a scheduler that owns every nondeterministic
// choice.  All ranks run until each is blocked; then a receive with a wildcard source is
// matched with one of the senders that could reach it (a choice point).  Running to
// quiescence first makes the set of candidates maximal, so enumerating the choices covers
// every matching of the program (messages of one sender do not overtake each other).
// Two ways of sending: buffered (the sender goes on) and synchronous (it waits for the
// receiver); broadcasts likewise.  Deadlocks, lost messages, wrong types, mismatched
// collectives and exceptions end the run with an error.
#ifndef VERIF_MPI_WORLD_H
#define VERIF_MPI_WORLD_H
#include "qlten/mpi_core.h"
#include "mc.h"
#include <ucontext.h>
#include <deque>
#include <functional>
#include <list>
#include <memory>
#include <string>
#include <system_error>
#include <thread>
#include <tuple>
#include <vector>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/common_interface_defs.h>
#define MPIW_ASAN 1
#endif

namespace mpiw {
struct AbortRun {};
struct Options { int ranks = 3; bool sync = false; int policy = 0; std::vector<int> script; };
class World : public shim_mpi::World {
 public:
  explicit World(const Options &o) : o_(o), n_(o.ranks) {}
  // returns "" or an error
  std::string Run(const std::function<void(int)> &body) {
    body_ = &body; rk_.clear(); rk_.resize(n_); shim_mpi::Cur() = this;
    for (int r = 0; r < n_; ++r) { rk_[r].stack = NewStack(); Start(r); }
    Loop();
    if (!err_.empty()) { abort_ = true; for (size_t t = 0; t < th_.size(); ++t) while (th_[t]->started && !th_[t]->done) { cur_ = th_[t]->rank; Switch(int(t)); } for (int r = 0; r < n_; ++r) while (!rk_[r].done) Resume(r); }
    else for (auto &t : th_) if (!t->done) err_ = "a thread never finished";
    for (auto &t : th_) FreeStack(t->stack);
    th_.clear();
    for (auto &r : rk_) FreeStack(r.stack);
    if (err_.empty()) {
      for (int r = 0; r < n_; ++r) if (!rk_[r].in.empty()) { err_ = "message never received: from rank " + std::to_string(rk_[r].in.front()->src) + " to rank " + std::to_string(r) + " tag " + std::to_string(rk_[r].in.front()->tag) + " " + rk_[r].in.front()->m.kind; break; }
    }
    shim_mpi::Cur() = nullptr; rk_.clear(); colls_.clear(); return err_;
  }
  std::vector<int> choices, arity; size_t messages = 0, collectives = 0, switches = 0;

  // ---- threads of a rank: fibers that run only where the schedule lets them
  int Spawn(std::function<void()> f) {
    if (abort_) return -1;
    auto t = std::make_unique<T>(); t->rank = cur_; t->f = std::move(f); t->stack = NewStack(); int id = int(th_.size()); th_.push_back(std::move(t));
    T &x = *th_[id]; getcontext(&x.ctx); x.ctx.uc_stack.ss_sp = x.stack.p; x.ctx.uc_stack.ss_size = x.stack.n; x.ctx.uc_link = nullptr; makecontext(&x.ctx, &World::TEntry, 0);
    rk_[cur_].threads++; Point(); return id;
  }
  void Join(int id) {
    if (id < 0 || abort_) { if (abort_ && !std::uncaught_exceptions()) throw AbortRun(); return; }
    if (thr_ >= 0) Fatal("a thread joins a thread");
    rk_[cur_].join = id; while (!th_[id]->done) Point(); rk_[cur_].join = -1;
  }
  void Detached(const std::string &e) { if (abort_) return; if (err_.empty()) err_ = "rank " + std::to_string(cur_) + ": " + e; }
  void FileOp() override { if (!abort_) Point(); }
  static void Tick() { mc::ctx().tick = mc::ctx().tick + 1; }

  int Rank() override { return cur_; }
  int Size() override { return n_; }
  void Send(int dest, int tag, shim_mpi::Msg m) override {
    Check(); Point();
    if (dest < 0 || dest >= n_ || dest == cur_) Fatal("send to rank " + std::to_string(dest));
    if (tag < 0) Fatal("send with tag " + std::to_string(tag));
    auto it = std::make_shared<Item>(); it->src = cur_; it->tag = tag; it->m = std::move(m);
    rk_[dest].in.push_back(it); ++messages;
    if (o_.sync) { auto &r = rk_[cur_]; r.wait = SENDW; r.item = it; Block(); }
  }
  shim_mpi::Msg Recv(int source, int tag, const std::string &kind, MPI_Status &st) override {
    Check(); Point();
    if (source != MPI_ANY_SOURCE && (source < 0 || source >= n_ || source == cur_)) Fatal("receive from rank " + std::to_string(source));
    auto &r = rk_[cur_]; r.wait = RECVW; r.src = source; r.tag = tag; r.kind = kind; r.item.reset(); Block();
    auto it = rk_[cur_].item; st.MPI_SOURCE = it->src; st.MPI_TAG = it->tag; st.MPI_ERROR = 0; rk_[cur_].item.reset(); return std::move(it->m);
  }
  shim_mpi::Msg Coll(const std::string &kind, int root, shim_mpi::Msg m) override {
    Check(); Point(); ++collectives;
    auto &r = rk_[cur_]; size_t k = r.ncoll++;
    if (k >= colls_.size()) colls_.emplace_back();
    auto &c = colls_[k];
    if (c.arrived == 0) { c.kind = kind; c.root = root; }
    else if (c.kind != kind || c.root != root) Fatal("collective mismatch: rank " + std::to_string(cur_) + " is in \"" + kind + "\" root " + std::to_string(root) + ", others in \"" + c.kind + "\" root " + std::to_string(c.root));
    c.arrived++;
    if (cur_ == root) { c.m = std::move(m); c.have = true; }
    r.wait = COLLW; r.coll = k; Block();
    if (cur_ == root || root < 0) return {};
    return colls_[k].m;
  }
  void Abort(int) override { Fatal("MPI_Abort"); }

 private:
  enum W { NONE, SENDW, RECVW, COLLW };
  struct Item { int src = 0, tag = 0; shim_mpi::Msg m; bool taken = false; };
  struct Stack { char *p = nullptr; size_t n = 0; };
  struct R {
    ucontext_t ctx; Stack stack; bool done = false; W wait = NONE; int src = 0, tag = 0; std::string kind; size_t coll = 0, ncoll = 0;
    std::shared_ptr<Item> item; std::list<std::shared_ptr<Item>> in; void *fake = nullptr; int threads = 0, join = -1, next = -1; ucontext_t tctx;
  };
  struct T { ucontext_t ctx; Stack stack; std::function<void()> f; int rank = 0; bool started = false, done = false; void *fake = nullptr; };
  struct C { std::string kind; int root = 0, arrived = 0; bool have = false; shim_mpi::Msg m; };
  static std::vector<char *> &Pool() { static std::vector<char *> p; return p; }
  static constexpr size_t kStack = 1 << 20;
  static Stack NewStack() { if (!Pool().empty()) { char *p = Pool().back(); Pool().pop_back(); return {p, kStack}; } return {static_cast<char *>(mmap(nullptr, kStack, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0)), kStack}; }
  static void FreeStack(Stack s) { Pool().push_back(s.p); }
  void Fatal(const std::string &e) { if (err_.empty()) err_ = "rank " + std::to_string(cur_) + ": " + e; throw AbortRun(); }
  void Check() { if (abort_) throw AbortRun(); }
  // A scheduling point of the current rank when it has threads: who goes on, the rank's
  // main thread or one of the others?
  void Point() {
    if (abort_) throw AbortRun();
    R &r = rk_[cur_]; if (r.threads == 0) return;
    std::vector<int> cand; // -1: main
    for (size_t t = 0; t < th_.size(); ++t) if (th_[t]->rank == cur_ && !th_[t]->done) cand.push_back(int(t));
    bool main_ok = r.join < 0 || th_[r.join]->done; if (main_ok) cand.push_back(-1);
    int next = Choose(cand);
    if (next == thr_) return;
    ++switches;
    if (thr_ >= 0) { r.next = next; TBlock(); Check(); return; }
    // main runs the others from here until it is chosen again
    while (next >= 0) { Switch(next); if (abort_ || !err_.empty()) { abort_ = abort_ || !err_.empty(); throw AbortRun(); } next = r.next; r.next = -1; }
  }
  // policies: even: the other threads run as early as they can, oldest first; odd: as late as possible
  int Choose(std::vector<int> cand) {
    if (cand.size() == 1) return cand[0];
    if (o_.policy & 1) std::rotate(cand.begin(), cand.end() - 1, cand.end());
    size_t k = choices.size(), at = k < o_.script.size() ? size_t(o_.script[k]) : 0;
    if (at >= cand.size()) Fatal("replay: no such choice");
    choices.push_back(int(at)); arity.push_back(int(cand.size())); return cand[at];
  }
  static void TEntry() {
    World *w = Self(); int t = w->thr_;
#ifdef MPIW_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &w->tstack_, &w->tlen_);
#endif
    try { w->th_[t]->f(); }
    catch (const AbortRun &) {}
    catch (const std::exception &e) { if (w->err_.empty()) w->err_ = std::string("a thread ends with an exception: ") + e.what(); }
    catch (...) { if (w->err_.empty()) w->err_ = "a thread ends with an exception"; }
    T &x = *w->th_[t]; x.f = nullptr; x.done = true; R &r = w->rk_[x.rank]; r.threads--;
    if (!w->abort_ && w->err_.empty()) {
      std::vector<int> cand; for (size_t u = 0; u < w->th_.size(); ++u) if (w->th_[u]->rank == x.rank && !w->th_[u]->done) cand.push_back(int(u));
      if (r.join < 0 || w->th_[r.join]->done) cand.push_back(-1);
      try { r.next = w->Choose(cand); } catch (const AbortRun &) {}
    }
#ifdef MPIW_ASAN
    __sanitizer_start_switch_fiber(nullptr, w->tstack_, w->tlen_);
#endif
    swapcontext(&x.ctx, &w->rk_[x.rank].tctx);
  }
  void Switch(int t) { // from the rank's main thread (or the scheduler when aborting) to thread t
    T &x = *th_[t]; x.started = true; thr_ = t; Self() = this; R &r = rk_[x.rank];
#ifdef MPIW_ASAN
    void *fake = nullptr; __sanitizer_start_switch_fiber(&fake, x.stack.p, x.stack.n);
#endif
    swapcontext(&r.tctx, &x.ctx);
#ifdef MPIW_ASAN
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
    thr_ = -1;
  }
  void TBlock() {
    int t = thr_;
#ifdef MPIW_ASAN
    __sanitizer_start_switch_fiber(&th_[t]->fake, tstack_, tlen_);
#endif
    swapcontext(&th_[t]->ctx, &rk_[th_[t]->rank].tctx);
#ifdef MPIW_ASAN
    __sanitizer_finish_switch_fiber(th_[t]->fake, &tstack_, &tlen_);
#endif
  }
  static World *&Self() { static World *w = nullptr; return w; }
  static void Entry() {
    World *w = Self(); int r = w->cur_;
#ifdef MPIW_ASAN
    __sanitizer_finish_switch_fiber(nullptr, &w->mstack_, &w->mlen_);
#endif
    try { (*w->body_)(r); }
    catch (const AbortRun &) {}
    catch (const std::exception &e) { if (w->err_.empty()) w->err_ = "rank " + std::to_string(r) + ": " + e.what(); }
    catch (...) { if (w->err_.empty()) w->err_ = "rank " + std::to_string(r) + ": unknown exception"; }
    w->rk_[r].done = true;
#ifdef MPIW_ASAN
    __sanitizer_start_switch_fiber(nullptr, w->mstack_, w->mlen_);
#endif
    swapcontext(&w->rk_[r].ctx, &w->main_);
  }
  void Start(int r) {
    getcontext(&rk_[r].ctx); rk_[r].ctx.uc_stack.ss_sp = rk_[r].stack.p; rk_[r].ctx.uc_stack.ss_size = rk_[r].stack.n; rk_[r].ctx.uc_link = nullptr;
    makecontext(&rk_[r].ctx, &World::Entry, 0);
  }
  void Resume(int r) {
    cur_ = r; Self() = this;
#ifdef MPIW_ASAN
    void *fake = nullptr; __sanitizer_start_switch_fiber(&fake, rk_[r].stack.p, rk_[r].stack.n);
#endif
    swapcontext(&main_, &rk_[r].ctx);
#ifdef MPIW_ASAN
    __sanitizer_finish_switch_fiber(fake, nullptr, nullptr);
#endif
  }
  void Block() {
    int r = cur_;
#ifdef MPIW_ASAN
    __sanitizer_start_switch_fiber(&rk_[r].fake, mstack_, mlen_);
#endif
    swapcontext(&rk_[r].ctx, &main_);
#ifdef MPIW_ASAN
    __sanitizer_finish_switch_fiber(rk_[r].fake, &mstack_, &mlen_);
#endif
    Check();
  }
  bool Take(R &r, std::list<std::shared_ptr<Item>>::iterator i) {
    auto it = *i; r.in.erase(i);
    if (it->m.kind != r.kind) { err_ = "rank " + std::to_string(&r - rk_.data()) + " receives \"" + it->m.kind + "\" (from rank " + std::to_string(it->src) + " tag " + std::to_string(it->tag) + ") as \"" + r.kind + "\""; return false; }
    it->taken = true; r.item = it; r.wait = NONE; return true;
  }
  // first message of `src` that fits
  std::list<std::shared_ptr<Item>>::iterator First(R &r, int src) {
    for (auto i = r.in.begin(); i != r.in.end(); ++i) if ((*i)->src == src && (r.tag == MPI_ANY_TAG || (*i)->tag == r.tag)) return i;
    return r.in.end();
  }
  void Loop() {
    for (int r = 0; r < n_; ++r) { rk_[r].wait = NONE; }
    while (err_.empty()) {
      bool go = false; Tick();
      for (int r = 0; r < n_ && err_.empty(); ++r) if (!rk_[r].done && rk_[r].wait == NONE) { Resume(r); go = true; }
      if (!err_.empty()) return;
      for (int q = 0; q < n_; ++q) {
        R &r = rk_[q]; if (r.done) continue;
        if (r.wait == SENDW && r.item->taken) { r.item.reset(); r.wait = NONE; go = true; }
        if (r.wait == COLLW) {
          C &c = colls_[r.coll]; bool all = c.arrived == n_;
          if (all || (!o_.sync && c.root >= 0 && c.have && c.kind.compare(0, 3, "svd"))) { r.wait = NONE; go = true; }
        }
        if (r.wait == RECVW && r.src != MPI_ANY_SOURCE) { auto i = First(r, r.src); if (i != r.in.end()) { if (!Take(r, i)) return; go = true; } }
      }
      if (go) continue;
      bool alldone = true; for (auto &r : rk_) alldone = alldone && r.done; if (alldone) return;
      bool matched = false;
      for (int q = 0; q < n_ && !matched; ++q) {
        R &r = rk_[q]; if (r.done || r.wait != RECVW || r.src != MPI_ANY_SOURCE) continue;
        std::vector<int> cand; for (int s = 0; s < n_; ++s) if (First(r, s) != r.in.end()) cand.push_back(s);
        if (cand.empty()) continue;
        size_t k = choices.size(), at = 0;
        if (cand.size() > 1) {
          if (o_.policy == 1) std::reverse(cand.begin(), cand.end());
          if (o_.policy == 2) std::rotate(cand.begin(), cand.begin() + (k % cand.size()), cand.end());
          if (o_.policy == 3) { // the message sent last
            int last = -1; for (auto &it : r.in) last = it->src; auto p = std::find(cand.begin(), cand.end(), last); if (p != cand.end()) std::rotate(cand.begin(), p, cand.end());
          }
          at = k < o_.script.size() ? size_t(o_.script[k]) : 0;
          if (at >= cand.size()) { err_ = "replay: no such choice"; return; }
          choices.push_back(int(at)); arity.push_back(int(cand.size()));
        }
        if (!Take(r, First(r, cand[at]))) return;
        matched = true;
      }
      if (!matched) {
        err_ = "deadlock:";
        for (int q = 0; q < n_; ++q) { R &r = rk_[q]; err_ += " rank " + std::to_string(q) + (r.done ? " finished;" : r.wait == SENDW ? " sends " + r.item->m.kind + " tag " + std::to_string(r.item->tag) + ";" : r.wait == RECVW ? " waits for " + r.kind + " from " + std::to_string(r.src) + " tag " + std::to_string(r.tag) + ";" : " in \"" + colls_[r.coll].kind + "\";"); }
      }
    }
  }
  Options o_; int n_; int cur_ = 0, thr_ = -1; bool abort_ = false; std::string err_; std::vector<std::unique_ptr<T>> th_; const void *tstack_ = nullptr; size_t tlen_ = 0;
  std::vector<R> rk_; std::deque<C> colls_; ucontext_t main_; const std::function<void(int)> *body_ = nullptr;
  const void *mstack_ = nullptr; size_t mlen_ = 0;
};

// Stands in for std::thread within a rank.
class Thread {
 public:
  Thread() = default;
  template<typename F, typename... A> explicit Thread(F &&f, A &&... a) {
    auto *w = static_cast<World *>(shim_mpi::Cur());
    auto t = std::make_shared<std::tuple<std::decay_t<F>, std::decay_t<A>...>>(std::forward<F>(f), std::forward<A>(a)...);
    id_ = w->Spawn([t] { std::apply([](auto &&g, auto &&... x) { std::invoke(std::move(g), std::move(x)...); }, *t); }); on_ = true;
  }
  Thread(const Thread &) = delete; Thread &operator=(const Thread &) = delete;
  Thread(Thread &&o) noexcept : id_(o.id_), on_(o.on_) { o.on_ = false; }
  Thread &operator=(Thread &&o) noexcept { Lost("a running thread is assigned over"); id_ = o.id_; on_ = o.on_; o.on_ = false; return *this; }
  ~Thread() { Lost("a thread is destroyed that was not joined"); }
  bool joinable() const { return on_; }
  void join() { if (!on_) throw std::system_error(std::make_error_code(std::errc::invalid_argument)); on_ = false; static_cast<World *>(shim_mpi::Cur())->Join(id_); }
  void detach() { on_ = false; }
 private:
  void Lost(const char *e) { if (on_ && shim_mpi::Cur()) static_cast<World *>(shim_mpi::Cur())->Detached(e); on_ = false; }
  int id_ = -1; bool on_ = false;
};

// Enumerates the schedules of one program: all scripts whose deviations from the default
// policy number at most `dev`, or lie within `window` consecutive choice points.
inline void Explore(const std::function<std::vector<int>(const std::vector<int> &script, std::vector<int> &choices)> &run, size_t dev, size_t window,
                    const std::function<bool(const std::vector<int> &)> &mine) {
  auto allowed = [&](const std::vector<int> &s) {
    size_t n = 0, lo = 0, hi = 0; for (size_t i = 0; i < s.size(); ++i) if (s[i]) { if (!n) lo = i; hi = i; ++n; }
    return n <= dev || hi - lo < window;
  };
  std::vector<std::vector<int>> todo{{}};
  while (!todo.empty()) {
    auto s = todo.back(); todo.pop_back();
    std::vector<int> ch; auto ar = run(s, ch);
    for (size_t i = s.size(); i < ch.size(); ++i) for (int a = 1; a < ar[i]; ++a) {
      std::vector<int> t(ch.begin(), ch.begin() + i); t.push_back(a);
      if (!allowed(t)) continue;
      if (s.empty() && !mine(t)) continue;
      todo.push_back(t);
    }
  }
}
inline std::string ScriptStr(const std::vector<int> &s) { std::string o; for (int x : s) o += char('0' + x); return o.empty() ? "-" : o; }
inline std::vector<int> StrScript(const std::string &s) { std::vector<int> o; if (s != "-") for (char c : s) o.push_back(c - '0'); return o; }
}
#endif
