// Exhaustive exploration of the memory monitor against every combination of a set of system
// answers (the system call is replaced in this program), and of the solver-parameter records.
#include "mc.h"
#include <sys/sysinfo.h>
#include <cmath>
#include <climits>
#include <cfloat>
static struct sysinfo g_info; static int g_rc = 0; static long g_calls = 0;
extern "C" int sysinfo(struct sysinfo *p) noexcept { g_calls++; *p = g_info; return g_rc; }
#include "qlmps/memory_monitor.h"
#include "qlmps/algorithm/lanczos_params.h"
using namespace std;
static string only;
static bool sel(const string &id) { if (!only.empty() && only != id) return false; mc::ctx().begin_case(id); return true; }
static string capture(const function<void()> &f) { ostringstream o; auto *b = cout.rdbuf(o.rdbuf()); try { f(); } catch (...) { cout.rdbuf(b); throw; } cout.rdbuf(b); return o.str(); }
static string fx(double v) { char b[64]; snprintf(b, 64, "%.2f", v); return b; }
static void memory() {
  auto &C = mc::ctx(); const double GB = 1024.0 * 1024 * 1024;
  const unsigned long sz[] = {0, 1, 4096, 1ul << 20, 3ul << 19, (1ul << 30) - 1, 5ul << 30, 1ul << 36};
  const unsigned units[] = {1, 2, 512, 1024, 4096};
  for (auto tot : sz) for (auto fr : sz) for (auto bf : sz) for (auto un : units) for (int rc : {0, -1}) for (unsigned long noise : {0ul, 12345678ul}) {
    if (fr + bf > tot) continue;
    if (!C.mine() && only.empty()) continue;
    string id = "mem|" + to_string(tot) + "|" + to_string(fr) + "|" + to_string(bf) + "|" + to_string(un) + "|" + to_string(rc) + "|" + to_string(noise);
    if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 4; C.states++;
    memset(&g_info, 0, sizeof g_info); g_info.totalram = tot; g_info.freeram = fr; g_info.bufferram = bf; g_info.mem_unit = un; g_rc = rc;
    g_info.totalswap = noise; g_info.freeswap = noise; g_info.sharedram = noise; g_info.totalhigh = noise; g_info.freehigh = noise; g_info.procs = 77;
    qlmps::MemoryMonitor m(noise ? 3 : 0); double f = -1, u = -2, t = -3; bool threw = false;
    try { m.GetMemoryInfo(f, u, t); } catch (const runtime_error &) { threw = true; }
    if (rc) {
      bool t2 = false, t3 = false; string o2, o3;
      try { o2 = capture([&] { m.Checkpoint("msg"); }); } catch (const runtime_error &) { t2 = true; }
      try { o3 = capture([&] { qlmps::MemoryMonitor::ListAvailableDevices(); }); } catch (const runtime_error &) { t3 = true; }
      if (!threw || !t2 || !t3) C.violate("mem-failure", id, "a failing system query is not reported as an error");
      C.outcome("query failure reported"); continue;
    }
    if (threw) { C.violate("mem-value", id, "throws on a successful query"); continue; }
    double wt = (double) tot * un / GB, wf = (double) (fr + bf) * un / GB;
    auto near = [](double a, double b) { return fabs(a - b) <= 1e-12 * max(1.0, fabs(b)); };
    if (!near(t, wt) || !near(f, wf)) C.violate("mem-value", id, "total/free " + to_string(t) + "/" + to_string(f) + " instead of " + to_string(wt) + "/" + to_string(wf));
    if (!near(u + f, t) || u < 0 || f < 0 || u > t * (1 + 1e-12)) C.violate("mem-balance", id, "used + free is not the total");
    string cp = capture([&] { m.Checkpoint("phase \"7\""); });
    for (auto &w : {string("phase \"7\""), "Used: " + fx(wt - wf) + " GB", "Free: " + fx(wf) + " GB", "Total: " + fx(wt) + " GB"}) if (cp.find(w) == string::npos) { C.violate("mem-report", id, "checkpoint output lacks '" + w + "': " + cp); break; }
    string ls = capture([&] { qlmps::MemoryMonitor::ListAvailableDevices(); });
    for (auto &w : {"Total: " + fx(wt) + " GB", "Available: " + fx(wf) + " GB", "Used: " + fx(wt - wf) + " GB"}) if (ls.find(w) == string::npos) { C.violate("mem-report", id, "summary output lacks '" + w + "': " + ls); break; }
    if (m.GetDeviceId() != 0) C.violate("mem-device", id, "device id");
    C.outcome(fr + bf == tot ? "all free" : "partly used");
  }
}
static void params() {
  auto &C = mc::ctx(); using LP = qlmps::LanczosParams;
  const double er[] = {0, 1e-300, 1e-12, 1e-7, 0.5, 1, -1, DBL_MAX, 1e-7 + 1e-20}; const size_t it[] = {0, 1, 2, 3, 100, 200, 201, SIZE_MAX};
  for (double e : er) for (size_t n : it) {
    if (!C.mine() && only.empty()) continue; char b[80]; snprintf(b, 80, "lz|%a|%zu", e, n); string id = b; if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 5; C.states++;
    LP p(e, n), q(p), d, o(e); LP a(0.25, 9); a = p; const LP cq(q); LP r(cq);
    auto is = [](const LP &x, double e, size_t n) { return x.error == e && x.max_iterations == n; };
    if (!is(p, e, n) || !is(q, e, n) || !is(a, e, n) || !is(r, e, n)) C.violate("lanczos-params", id, "a copy or the original does not carry the given values");
    if (!is(o, e, d.max_iterations)) C.violate("lanczos-params", id, "tolerance-only construction");
    if (!is(d, 1e-7, 200)) C.violate("lanczos-params", id, "defaults are not 1e-7 and 200");
    q.error = 3; q.max_iterations = 4; if (!is(p, e, n)) C.violate("lanczos-params", id, "copies are not independent");
    C.outcome("params");
  }
}
static void run() { if (mc::ctx().mode == "params") params(); else memory(); }
static void rep(const string &s) { only = s; run(); }
int main(int argc, char **argv) { mc::mute_all(); return mc::main_driver(argc, argv, run, rep); }
