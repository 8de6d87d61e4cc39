// Exhaustive exploration of the parameter parser: every value shape x every accessor, every
// accessor history up to a bound, every file-level shape.  Exiting accessors run in a forked
// child; exit code, diagnostics and the returned value are compared with an independent table.
#include "mc.h"
#include "qlmps/case_params_parser.h"
#include <sys/wait.h>
#include <cmath>
#include <climits>
#include <cfloat>
#include <algorithm>
using namespace std; using qlmps::CaseParamsParserBasic;

struct Sc { string text, tname; bool isBool = false, b = false, isNum = false, isInt = false, isStr = false; bool neg = false; uint64_t mag = 0; double d = 0; string s; };
static vector<Sc> scalars() {
  vector<Sc> v;
  auto in = [&](const string &t, bool neg, uint64_t mag) { Sc x; x.text = t; x.tname = "number"; x.isNum = x.isInt = true; x.neg = neg; x.mag = mag; x.d = neg ? -(double) mag : (double) mag; v.push_back(x); };
  auto fl = [&](const string &t, double d) { Sc x; x.text = t; x.tname = "number"; x.isNum = true; x.d = d; v.push_back(x); };
  auto st = [&](const string &t, const string &s) { Sc x; x.text = t; x.tname = "string"; x.isStr = true; x.s = s; v.push_back(x); };
  in("0", false, 0); in("1", false, 1); in("-1", true, 1); in("7", false, 7); in("2147483647", false, 2147483647ull); in("2147483648", false, 2147483648ull);
  in("-2147483648", true, 2147483648ull); in("-2147483649", true, 2147483649ull); in("4294967296", false, 4294967296ull); in("4294967297", false, 4294967297ull); in("9223372036854775807", false, 9223372036854775807ull);
  in("9223372036854775808", false, 9223372036854775808ull); in("18446744073709551615", false, 18446744073709551615ull); in("-9223372036854775808", true, 9223372036854775808ull);
  fl("0.5", 0.5); fl("1.0", 1.0); fl("-2.75", -2.75); fl("1e3", 1e3); fl("1e-300", 1e-300); fl("1.7976931348623157e308", DBL_MAX); fl("0.1", 0.1); fl("18446744073709551616", 18446744073709551616.0); fl("3e9", 3e9);
  st("\"\"", ""); st("\"a\"", "a"); st("\"abc\"", "abc"); st("\"1\"", "1"); st("\"true\"", "true"); st("\"q\\\"\\n\"", "q\"\n"); st("\"null\"", "null");
  { Sc x; x.text = "true"; x.tname = "boolean"; x.isBool = true; x.b = true; v.push_back(x); x.text = "false"; x.b = false; v.push_back(x); }
  { Sc x; x.text = "null"; x.tname = "null"; v.push_back(x); }
  return v;
}
struct Val { string text, tname; bool arr = false; Sc s; vector<Sc> el; bool opaque = false; };   // opaque: never a legal value

enum { INT, DBL, CHR, STR, BOOL, IV, SV, DV, NTYPES };
static const char *tn[] = {"int", "double", "char", "string", "bool", "ints", "sizes", "doubles"};
static bool okInt(const Sc &s, bool size) {
  if (!s.isInt) return false;
  if (size) return !s.neg || s.mag == 0;
  return s.neg ? s.mag <= 2147483648ull : s.mag <= 2147483647ull;
}
static bool legal(const Val &v, int t) {
  if (v.opaque) return false;
  if (t < IV) { if (v.arr) return false; const Sc &s = v.s; return t == INT ? okInt(s, false) : t == DBL ? s.isNum : (t == CHR || t == STR) ? s.isStr : s.isBool; }
  if (!v.arr) return false;
  for (auto &e : v.el) if (!(t == IV ? okInt(e, false) : t == SV ? okInt(e, true) : e.isNum)) return false;
  return true;
}
static string num(double d) { char b[64]; snprintf(b, 64, "%a", d); return b; }
static string render(const Val &v, int t) {      // canonical rendering of the expected value
  auto i = [](const Sc &s) { return (s.neg && s.mag ? "-" : "") + to_string(s.mag); };
  if (t == INT) return i(v.s); if (t == DBL) return num(v.s.d); if (t == STR) return v.s.s; if (t == CHR) return to_string((int) (v.s.s.empty() ? 0 : v.s.s[0])); if (t == BOOL) return v.s.b ? "T" : "F";
  string s = "["; for (auto &e : v.el) s += (t == DV ? num(e.d) : i(e)) + ","; return s + "]";
}
template<class T> static string rv(const vector<T> &v) { string s = "["; for (auto &e : v) s += to_string(e) + ","; return s + "]"; }
static string rv(const vector<double> &v) { string s = "["; for (auto &e : v) s += num(e) + ","; return s + "]"; }
static const int DINT = -77; 
static string strict(CaseParamsParserBasic &p, int t, const string &k) {
  switch (t) { case INT: return to_string(p.ParseInt(k)); case DBL: return num(p.ParseDouble(k)); case CHR: return to_string((int) p.ParseChar(k)); case STR: return p.ParseStr(k); case BOOL: return p.ParseBool(k) ? "T" : "F"; case IV: return rv(p.ParseIntVec(k)); case SV: return rv(p.ParseSizeTVec(k)); default: return rv(p.ParseDoubleVec(k)); }
}
static string dflt(int t) { switch (t) { case INT: return "-77"; case DBL: return num(-7.25); case CHR: return to_string((int) '#'); case STR: return "dflt"; case BOOL: return "T"; case IV: return "[9,8,]"; case SV: return "[6,5,]"; default: return rv(vector<double>{0.125}); } }
static string orr(CaseParamsParserBasic &p, int t, const string &k, bool bd = true) {
  switch (t) { case INT: return to_string(p.ParseIntOr(k, DINT)); case DBL: return num(p.ParseDoubleOr(k, -7.25)); case CHR: return to_string((int) p.ParseCharOr(k, '#')); case STR: return p.ParseStrOr(k, "dflt"); case BOOL: return p.ParseBoolOr(k, bd) ? "T" : "F"; case IV: return rv(p.ParseIntVecOr(k, {9, 8})); case SV: return rv(p.ParseSizeTVecOr(k, {6, 5})); default: return rv(p.ParseDoubleVecOr(k, {0.125})); }
}
// returns rendering if true was returned; "!" + rendering of the untouched output otherwise
static string tryp(const CaseParamsParserBasic &p, int t, const string &k) {
  bool ok; string r;
  switch (t) {
    case INT: { int x = -77; ok = p.TryParseInt(k, x); r = to_string(x); break; } case DBL: { double x = -7.25; ok = p.TryParseDouble(k, x); r = num(x); break; }
    case CHR: { char x = '#'; ok = p.TryParseChar(k, x); r = to_string((int) x); break; } case STR: { string x = "dflt"; ok = p.TryParseStr(k, x); r = x; break; }
    case BOOL: { bool x = true; ok = p.TryParseBool(k, x); r = x ? "T" : "F"; if (!ok) { bool y = false; if (p.TryParseBool(k, y) || y) r = "?"; } break; } case IV: { vector<int> x{9, 8}; ok = p.TryParseIntVec(k, x); r = rv(x); break; }
    case SV: { vector<size_t> x{6, 5}; ok = p.TryParseSizeTVec(k, x); r = rv(x); break; } default: { vector<double> x{0.125}; ok = p.TryParseDoubleVec(k, x); r = rv(x); }
  }
  return (ok ? "" : "!") + r;
}
static string path = "case_params_probe.json";
static void put(const string &text) { ofstream f(path); f << text; }

struct Child { int code; string out, err; };     // code: exit code, or 1000+signal
static Child forked(const function<string()> &fn) {
  int po[2], pe[2]; if (pipe(po) || pipe(pe)) abort();
  pid_t pid = fork();
  if (pid == 0) {
    dup2(pe[1], 2); close(po[0]); close(pe[0]);
    std::cerr.rdbuf();
    string r; int code = 0;
    try { r = fn(); } catch (const exception &e) { r = string("EXC:") + e.what(); code = 77; } catch (...) { code = 78; }
    (void) !write(po[1], r.data(), r.size()); _exit(code);
  }
  close(po[1]); close(pe[1]); Child c; char b[4096]; ssize_t n;
  while ((n = read(po[0], b, sizeof b)) > 0) c.out.append(b, n);
  while ((n = read(pe[0], b, sizeof b)) > 0) c.err.append(b, n);
  close(po[0]); close(pe[0]); int st; waitpid(pid, &st, 0);
  c.code = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
  return c;
}
static bool diag(const Child &c, const string &key, const string &actual, string &why) {
  if (c.code != 1) { why = "exit code " + to_string(c.code) + " instead of 1"; return false; }
  if (c.err.find(path) == string::npos) { why = "diagnostic does not name the file"; return false; }
  if (!key.empty() && c.err.find("'" + key + "'") == string::npos) { why = "diagnostic does not name the key"; return false; }
  if (!actual.empty() && c.err.find(actual) == string::npos) { why = "diagnostic does not name the actual type " + actual; return false; }
  return true;
}
static string only;
static bool sel(const string &id) { if (!only.empty() && only != id) return false; mc::ctx().begin_case(id); return true; }

static void value_case(const Val &v, int t, CaseParamsParserBasic &p) {
  auto &C = mc::ctx(); string id = string("v|") + tn[t] + "|" + v.text; if (!sel(id)) return;
  bool ok = legal(v, t); string want = ok ? render(v, t) : "", why;
  C.evaluations += 3; C.traces_validated += 3; C.transitions += 3; C.states++;
  auto j = [&](const char *api, const string &m) { C.violate(string("parse-") + api + "-" + (ok ? "value" : "illtyped"), id, string(api) + " as " + tn[t] + " of " + v.text + ": " + m); };
  string tr = tryp(p, t, "K");
  if (ok) {
    if (tr != want) j("try", "gives " + tr + " instead of " + want);
    Child s = forked([&] { return strict(p, t, "K"); }); if (s.code || s.out != want) j("strict", "exit " + to_string(s.code) + " value " + s.out + " instead of " + want);
    Child o = forked([&] { return orr(p, t, "K"); }); if (o.code || o.out != want) j("default", "exit " + to_string(o.code) + " value " + o.out + " instead of " + want);
  } else {
    if (tr != "!" + dflt(t)) j("try", tr[0] == '!' ? "reports failure but changes the output to " + tr : "accepts it as " + tr);
    Child s = forked([&] { return strict(p, t, "K"); }); if (!diag(s, "K", v.tname, why)) j("strict", why + (s.code == 0 ? ", returned " + s.out : ""));
    Child o = forked([&] { return orr(p, t, "K"); }); if (!diag(o, "K", v.tname, why)) j("default", why + (o.code == 0 ? ", returned " + o.out : ""));
  }
  C.outcome(string(tn[t]) + (ok ? " accepted" : " rejected"));
}
static void values() {
  auto &C = mc::ctx(); auto sc = scalars(); vector<Val> vs;
  for (auto &s : sc) { Val v; v.text = s.text; v.tname = s.tname; v.s = s; vs.push_back(v); }
  { Val v; v.text = "[]"; v.tname = "array"; v.arr = true; vs.push_back(v); }
  for (auto &s : sc) { Val v; v.text = "[" + s.text + "]"; v.tname = "array"; v.arr = true; v.el = {s}; vs.push_back(v); }
  for (auto &s : sc) for (auto &u : sc) { Val v; v.text = "[" + s.text + "," + u.text + "]"; v.tname = "array"; v.arr = true; v.el = {s, u}; vs.push_back(v); }
  vector<int> pick = {0, 2, 4, 5, 12, 14, 15, 24, 30, 32};
  for (int a : pick) for (int b : pick) for (int c : pick) { if (!C.thorough() && (a == 0 || b == 0 || c == 0) == false && (a + b + c) % 3) continue; Val v; v.text = "[" + sc[a].text + "," + sc[b].text + "," + sc[c].text + "]"; v.tname = "array"; v.arr = true; v.el = {sc[a], sc[b], sc[c]}; vs.push_back(v); }
  for (const char *o : {"{}", "{\"a\":1}", "{\"0\":1}"}) { Val v; v.text = o; v.tname = "object"; v.opaque = true; vs.push_back(v); }
  for (const char *o : {"[[]]", "[[1]]", "[{}]", "[1,[2]]", "[\"x\",\"y\"]"}) { Val v; v.text = o; v.tname = "array"; v.opaque = true; vs.push_back(v); }
  // long vectors keep length and order
  for (int n : {3, 17, 64}) { Val v; v.arr = true; v.tname = "array"; v.text = "["; for (int i = 0; i < n; i++) { auto &s = sc[(i * 5) % 5]; Sc x = sc[1]; x.mag = i; x.d = i; x.text = to_string(i); v.el.push_back(x); v.text += (i ? "," : "") + x.text; } v.text += "]"; vs.push_back(v); }
  for (auto &v : vs) {
    if (!C.mine() && only.empty()) continue;
    if (!only.empty() && only.substr(only.rfind('|') + 1) != v.text) continue;
    put("{\"K\": \"outside\", \"CaseParams\": {\"A\": 1, \"K\": " + v.text + ", \"Z\": [1]}}");
    CaseParamsParserBasic p(path.c_str());
    for (int t = 0; t < NTYPES; t++) value_case(v, t, p);
  }
}
// histories of accessors on one parser: nothing an accessor does may influence a later one
static void histories() {
  auto &C = mc::ctx(); int D = C.thorough() ? 4 : 3;
  const string keys[] = {"I", "S", "Missing"};     // 3 keys x 3 accessors x 3 types
  const string doc = "{\"Missing\": 3, \"CaseParams\": {\"I\": 12, \"S\": \"xy\", \"Extra\": {\"Missing\": 1}}}";
  const int types[] = {INT, STR, SV};
  struct A { int api, t, k; };
  vector<A> al; for (int api = 0; api < 3; api++) for (int t : types) for (int k = 0; k < 3; k++) al.push_back({api, t, k});
  for (int k = 0; k < 3; k++) al.push_back({3, 0, k});
  put(doc);
  auto expect = [&](const A &a) -> string {
    bool present = a.k < 2, match = (a.k == 0 && a.t == INT) || (a.k == 1 && a.t == STR);
    string val = a.k == 0 ? "12" : "xy";
    if (a.api == 3) return present ? "T" : "F";
    if (a.api == 0) return match ? val : "!" + dflt(a.t);
    if (a.api == 1) return match ? val : !present ? dflt(a.t) : "EXIT";
    return match ? val : "EXIT";
  };
  auto act = [&](CaseParamsParserBasic &p, const A &a) -> string { if (a.api == 3) return p.Has(keys[a.k]) ? "T" : "F"; return a.api == 0 ? tryp(p, a.t, keys[a.k]) : a.api == 1 ? orr(p, a.t, keys[a.k]) : strict(p, a.t, keys[a.k]); };
  vector<A> live; for (auto &a : al) if (expect(a) != "EXIT") live.push_back(a);
  for (int len = 1; len <= D; len++) {
    vector<size_t> ix(len, 0);
    while (true) {
      if (C.mine() || !only.empty()) {
        string id = "h"; for (auto i : ix) id += "|" + to_string(i);
        if (sel(id)) {
          C.evaluations++; C.traces_validated++; C.states++;
          CaseParamsParserBasic p(path.c_str());
          for (int s = 0; s < len; s++) { C.transitions++; auto &a = live[ix[s]]; string g = act(p, a); if (g != expect(a)) { C.violate("parse-history", id, "call " + to_string(s + 1) + " on key " + keys[a.k] + " as " + tn[a.t] + " gives " + g + " instead of " + expect(a)); break; } }
          C.outcome("history length " + to_string(len));
        }
      }
      int q = len - 1; while (q >= 0 && ++ix[q] == live.size()) ix[q--] = 0; if (q < 0) break;
    }
  }
  // histories that end in an exiting accessor
  for (size_t i = 0; i < live.size(); i++) for (size_t j = 0; j < al.size(); j++) if (expect(al[j]) == "EXIT") {
    if (!C.mine() && only.empty()) continue;
    string id = "hx|" + to_string(i) + "|" + to_string(j); if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions += 2;
    Child c = forked([&] { CaseParamsParserBasic p(path.c_str()); act(p, live[i]); return act(p, al[j]); }); string why;
    if (!diag(c, keys[al[j].k], "", why)) C.violate("parse-exit", id, string("accessor ") + (al[j].api == 1 ? "with default" : "strict") + " of " + keys[al[j].k] + " as " + tn[al[j].t] + ": " + why);
    C.outcome("exit after history");
  }
  // boolean default
  for (int b = 0; b < 2; b++) { string id = "bd" + to_string(b); if (C.shard || !sel(id)) continue; CaseParamsParserBasic p(path.c_str()); C.evaluations++; C.traces_validated++; if (orr(p, BOOL, "Missing", b) != (b ? "T" : "F")) C.violate("parse-default-missing", id, "default not returned"); }
  // all types: missing key
  for (int t = 0; t < NTYPES; t++) {
    string id = string("miss|") + tn[t]; if ((C.shard && only.empty()) || !sel(id)) continue;
    CaseParamsParserBasic p(path.c_str()); C.evaluations += 3; C.traces_validated += 3; string why;
    if (orr(p, t, "Missing") != dflt(t)) C.violate("parse-default-missing", id, "default not returned for a missing key");
    if (tryp(p, t, "Missing") != "!" + dflt(t)) C.violate("parse-try-missing", id, "missing key");
    Child c = forked([&] { return strict(p, t, "Missing"); }); if (!diag(c, "Missing", "", why)) C.violate("parse-strict-missing", id, why);
    C.outcome("missing key");
  }
}
static void files() {
  auto &C = mc::ctx();
  struct F { const char *name, *text; int kind; };      // kind 0: usable with I=1; 1: must exit(1) naming the file; 2: not JSON: must not be accepted
  const F fs[] = {{"plain", "{\"CaseParams\":{\"I\":1}}", 0}, {"siblings", "{\"x\":[1,2],\"CaseParams\":{\"I\":1},\"CaseParamsX\":{\"I\":2}}", 0}, {"whitespace", " \n\t{ \"CaseParams\" : \n { \"I\" : 1 } } \n", 0},
                  {"unicode", "{\"\\u0043aseParams\":{\"I\":1,\"\\u00e9\":2}}", 0}, {"bom", "\xEF\xBB\xBF{\"CaseParams\":{\"I\":1}}", 0}, {"dupkey", "{\"CaseParams\":{\"I\":2,\"I\":1}}", 0},
                  {"absent", nullptr, 1}, {"empty-object", "{}", 1}, {"lowercase", "{\"caseparams\":{\"I\":1}}", 1}, {"nested-only", "{\"a\":{\"CaseParams\":{\"I\":1}}}", 1}, {"array", "[{\"CaseParams\":{\"I\":1}}]", 1}, {"scalar", "3", 1}, {"null", "null", 1},
                  {"empty-file", "", 2}, {"truncated", "{\"CaseParams\":{\"I\":1", 2}, {"truncated2", "{\"CaseParams\":{\"I\":1}", 2}, {"garbage", "hello", 2}, {"trailing-comma", "{\"CaseParams\":{\"I\":1,}}", 2}, {"comment", "{/*c*/\"CaseParams\":{\"I\":1}}", 2}};
  for (auto &f : fs) {
    string id = string("f|") + f.name; if (!C.mine() && only.empty()) continue; if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions++; C.states++; string why;
    if (f.text) put(f.text); else unlink(path.c_str());
    Child c = forked([&] { CaseParamsParserBasic p(path.c_str()); return string("I=") + (f.kind ? orr(p, INT, "I") : strict(p, INT, "I")); });   // a bad file may not turn into defaults
    if (f.kind == 0 && (c.code || c.out != "I=1")) C.violate("parse-file", id, "legal file not read: exit " + to_string(c.code) + " " + c.out);
    if (f.kind == 1 && !diag(c, "", "", why)) C.violate("parse-file", id, why);
    if (f.kind == 2 && (c.code == 0 || c.code == 1000 + SIGSEGV)) C.violate("parse-file", id, "malformed file accepted or crashed: " + c.out);
    C.outcome(string("file kind ") + to_string(f.kind));
  }
  // truncation of a legal file at every byte
  const string doc = "{\"CaseParams\":{\"I\":1,\"V\":[1,2.5],\"S\":\"a\\\"b\",\"B\":false}}";
  for (size_t n = 0; n < doc.size(); n++) {
    string id = "cut|" + to_string(n); if (!C.mine() && only.empty()) continue; if (!sel(id)) continue;
    C.evaluations++; C.traces_validated++; C.transitions++; put(doc.substr(0, n));
    Child c = forked([&] { CaseParamsParserBasic p(path.c_str()); return string("I=") + orr(p, INT, "I"); });
    if (c.code == 0 || (c.code >= 1000 && c.code != 1000 + SIGABRT)) C.violate("parse-file", id, "file truncated at byte " + to_string(n) + " accepted or crashed: exit " + to_string(c.code) + " " + c.out);
    C.outcome("truncated file rejected");
  }
}
static void run() { auto &m = mc::ctx().mode; if (m == "values") values(); else if (m == "history") histories(); else files(); }
static void rep(const string &s) { only = s; run(); }
int main(int argc, char **argv) { mc::mute_all(); path = "case_params_probe_" + to_string(getpid()) + ".json"; return mc::main_driver(argc, argv, run, rep); }
