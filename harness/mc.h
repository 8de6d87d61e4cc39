// Shared driver for the exhaustive explorers in this directory.
//
// Every explorer enumerates a finite, explicitly bounded set of cases (operation
// histories, inputs, schedules, crash points, ...), runs the real code on each one and
// compares with an independent oracle.  The driver supplies: sharding, the current-case
// register (so that a crash or hang of the code under test is attributed to a case),
// a hang watchdog, violation bookkeeping, deterministic replay and a JSON report.
#ifndef VERIF_MC_H
#define VERIF_MC_H
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <fstream>
#include <iostream>
#include <chrono>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/resource.h>

namespace mc {

struct Violation { std::string key, replay, msg; };

struct Ctx {
  std::string tier = "quick";
  std::string mode;             // sub-exploration chosen by the runner
  unsigned shard = 0, nshards = 1;
  std::string out, casefile, replay;
  bool replaying = false;
  // counters
  uint64_t states = 0;          // distinct abstract states / final observations reached
  uint64_t transitions = 0;     // operations executed on the real code
  uint64_t evaluations = 0;     // complete executions checked against the oracle
  uint64_t traces_validated = 0;// model traces compared step by step with the implementation
  std::map<std::string, uint64_t> outcomes;   // distinct outcome classes
  std::vector<std::string> samples;
  std::vector<Violation> violations;
  std::map<std::string, uint64_t> viol_count;
  std::unordered_set<uint64_t> distinct;      // hashes of distinct nontrivial cases
  std::map<std::string, std::string> info;
  uint64_t seq = 0;             // case sequence number for sharding
  char *casebuf = nullptr;
  volatile uint64_t tick = 0;
  int hang_limit = 60;

  bool (*accept)(const std::string &) = nullptr;    // which keys this mode reports
  bool thorough() const { return tier == "thorough"; }

  // true when the case with the next sequence number belongs to this shard
  bool mine() { return (seq++ % nshards) == shard; }
  bool mine(uint64_t s) const { return (s % nshards) == shard; }

  void begin_case(const std::string &id) {
    tick = tick + 1;
    if (casebuf) {
      size_t n = std::min<size_t>(id.size(), 65000);
      memcpy(casebuf, id.data(), n);
      casebuf[n] = 0;
    }
  }
  void sample(const std::string &s) { if (samples.size() < 6) samples.push_back(s); }
  void outcome(const std::string &s) { outcomes[s]++; }
  void note_distinct(uint64_t h) { distinct.insert(h); }
  void violate(const std::string &key, const std::string &replay_id, const std::string &msg) {
    if (accept && !accept(key)) return;
#ifdef MC_FAILFAST
    if (!replaying) { fprintf(stderr, "FIRST %s %s %s\n", key.c_str(), replay_id.c_str(), msg.c_str()); _exit(1); }
#endif
    uint64_t c = ++viol_count[key];
    if (c <= 2 && violations.size() < 60) violations.push_back({key, replay_id, msg});
    if (replaying) { fprintf(stderr, "REPLAYED VIOLATION key=%s case=%s: %s\n", key.c_str(), replay_id.c_str(), msg.c_str()); }
  }
};

inline Ctx &ctx() { static Ctx c; return c; }

inline uint64_t hash_str(const std::string &s) {
  uint64_t h = 1469598103934665603ull;
  for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
  return h;
}

inline std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c == '\n') o += "\\n";
    else if (c == '\t') o += "\\t";
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

inline void write_report() {
  Ctx &c = ctx();
  if (c.out.empty()) return;
  std::ofstream f(c.out);
  f << "{\"states\":" << c.states << ",\"transitions\":" << c.transitions
    << ",\"evaluations\":" << c.evaluations
    << ",\"traces_validated\":" << c.traces_validated
    << ",\"distinct\":" << c.distinct.size() << ",\"outcomes\":{";
  bool first = true;
  for (auto &o : c.outcomes) { f << (first ? "" : ",") << "\"" << jesc(o.first) << "\":" << o.second; first = false; }
  f << "},\"viol_count\":{";
  first = true;
  for (auto &o : c.viol_count) { f << (first ? "" : ",") << "\"" << jesc(o.first) << "\":" << o.second; first = false; }
  f << "},\"info\":{";
  first = true;
  for (auto &o : c.info) { f << (first ? "" : ",") << "\"" << jesc(o.first) << "\":\"" << jesc(o.second) << "\""; first = false; }
  f << "},\"samples\":[";
  first = true;
  for (auto &s : c.samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
  f << "],\"violations\":[";
  first = true;
  for (auto &v : c.violations) {
    f << (first ? "" : ",") << "{\"key\":\"" << jesc(v.key) << "\",\"replay\":\"" << jesc(v.replay)
      << "\",\"msg\":\"" << jesc(v.msg) << "\"}";
    first = false;
  }
  f << "]}\n";
}

inline void on_alarm(int) {
  static uint64_t last = 0; static int stuck = 0;
  Ctx &c = ctx();
  if (c.tick == last) { if (++stuck >= c.hang_limit) { const char m[] = "MC-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); } }
  else { stuck = 0; last = c.tick; }
}

// run(mode) explores; replay(case) re-executes one case.
inline int main_driver(int argc, char **argv, const std::function<void()> &run,
                       const std::function<void(const std::string &)> &replay) {
  Ctx &c = ctx();
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nxt = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") c.tier = nxt();
    else if (a == "--mode") c.mode = nxt();
    else if (a == "--shard") { std::string s = nxt(); sscanf(s.c_str(), "%u/%u", &c.shard, &c.nshards); }
    else if (a == "--out") c.out = nxt();
    else if (a == "--case") c.casefile = nxt();
    else if (a == "--replay") { c.replay = nxt(); c.replaying = true; }
    else if (a == "--hang") c.hang_limit = atoi(nxt().c_str());
  }
  if (!c.casefile.empty()) {
    int fd = open(c.casefile.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0 && ftruncate(fd, 65536) == 0) {
      void *p = mmap(nullptr, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
      if (p != MAP_FAILED) c.casebuf = (char *) p;
    }
  }
#if !defined(__SANITIZE_ADDRESS__)
  // a runaway allocation becomes an exception of the case instead of exhausting the machine
  struct rlimit rl = {3500ull << 20, 3500ull << 20}; setrlimit(RLIMIT_AS, &rl);
#endif
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_alarm; sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, nullptr);
  struct itimerval tv = {{1, 0}, {1, 0}}; setitimer(ITIMER_REAL, &tv, nullptr);
  if (c.replaying) replay(c.replay); else run();
  write_report();
  return c.violations.empty() ? 0 : 1;
}

// silence the code under test
struct MuteCout {
  std::streambuf *o, *e; std::ostringstream sink;
  MuteCout() : o(std::cout.rdbuf(sink.rdbuf())), e(std::cerr.rdbuf(sink.rdbuf())) {}
  ~MuteCout() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
struct NullBuf : std::streambuf { int overflow(int c) override { return c; } std::streamsize xsputn(const char *, std::streamsize n) override { return n; } };
inline void mute_all() { static NullBuf *nb = new NullBuf; std::cout.rdbuf(nb); }

}  // namespace mc
#endif
