// Driver: generates cases per property, runs each in a child process under the simulator, checks the results.
#include "rt.h"
#include "model.hpp"
#include "case.hpp"
#include "shim.h"
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
using std::string; using std::vector;
static uint64_t hash_str(const string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ================================================================ executing one case (in the child)
struct OutSlot { void* o = nullptr; bool set = false, null = false; vector<string> snap; };
struct Exec {
  const Case& c; 
  void* pp[32] = {}; int ppq[32]; void* ct[32] = {}; void* ctx[32] = {}; int fed[32] = {}; OutSlot out[128];
  struct MarkS { uint64_t bytes, blocks; bool set; } marks[16] = {};
  std::map<std::pair<int, int>, vector<Res>> ref; 
  vector<vector<int>> ts;
  uint64_t anshash = 1469598103934665603ull;
  Exec(const Case& c_) : c(c_) {
    for (auto& o : c.ops) { long x = o.g("x"); if (x == 1 || x == 3 || x == 5) need(o); }
    for (auto& d : c.docs) ts.push_back(token_starts(d));
    for (size_t i = 0; i < c.docs.size(); i++) rt_add_file("sim-" + std::to_string(i) + ".json", c.docs[i]);
  }
  void need(const Op& o) {
    int q = -1; for (auto& p : c.ops) if (p.kind == "pp" && p.g("s") == o.g("s")) q = p.g("q");
    int f = o.g("whole", o.g("f")); if (q < 0 || f >= (int)c.docs.size() || ref.count({q, f})) return;
    vector<Res> r; expr_odd() = false; if (!reference(c.queries[q], c.docs[f], r) || expr_odd()) { ref_missing = true; return; } ref[{q, f}] = r;
  }
  bool ref_missing = false;
  void ah(const string& s) { for (unsigned char ch : s) { anshash ^= ch; anshash *= 1099511628211ull; } anshash ^= 0x100; anshash *= 1099511628211ull; rt_hash(s.data(), s.size()); }
  static string show(const vector<string>& v) { string s = std::to_string(v.size()) + " results ["; for (size_t i = 0; i < v.size() && i < 12; i++) { s += i ? ", " : ""; s += v[i].size() > 80 ? v[i].substr(0, 80) + "..." : v[i]; } return s + (v.size() > 12 ? ", ...]" : "]"); }
  string name(const Op& o) { string s = o.kind; for (auto& k : o.p) s += " " + k.first + "=" + std::to_string(k.second); return "client " + std::to_string(o.client) + ": " + s; }
  // copies a text into simulated memory, exactly sized
  char* text(const string& s) { char* p; { InSim i; p = shim_buf(s.size() + 1); } if (!p) return nullptr; memcpy(p, s.data(), s.size()); p[s.size()] = 0; return p; }
  void untext(char* p) { InSim i; shim_buf_free(p); }
  bool read_out(void* o, vector<string>& v) {
    int n; { InSim i; n = shim_out_size(o); } if (n < 0) rt_fail("answer", "negative number of results");
    for (int k = 0; k < n; k++) { const char* e; { InSim i; e = shim_out_get(o, k); } if (!e) { if (rt_fired(F_MALLOC)) rt_failstop("a result without text where memory ran out"); rt_fail("answer", "a result without text"); }
      size_t bs = rt_block_size(e); size_t len = bs == (size_t)-1 ? 0 : strnlen(e, bs); if (bs != (size_t)-1 && len == bs) rt_fail("answer", "an unterminated result"); if (bs == (size_t)-1) { if (!rt_valid_range(e, 1)) rt_fail("answer", "a result whose text has been released"); len = strlen(e); } v.push_back(string(e, len)); }
    return true;
  }
  void expect(const Op& o, const vector<string>& got, bool null, const vector<string>& want, const char* src) {
    if (null && want.empty() && o.g("f") < (int)c.docs.size() && c.docs[o.g("f")].empty()) { R->work++; return; }   // an empty file may give no result object
    R->work++; if (!want.empty()) R->nonempty++;
    if (null) { rt_fail("answer", name(o) + ": no result object, expected " + show(want)); }
    if (got != want) {
      size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
      rt_fail("answer", name(o) + ": differs from " + src + " at result " + std::to_string(i) + ": got " + show(got) + ", expected " + show(want));
    }
  }
  vector<string> prefix(int q, int f, long upto) { vector<string> v; for (auto& r : ref[{q, f}]) if (r.rel <= upto) v.push_back(r.text); return v; }
  static bool k_parallel(const Op& o) { return o.kind != "serial"; }
  void result(const Op& o, void* res, long upto = -1) {
    OutSlot& s = out[o.g("o")]; s = OutSlot(); s.o = res; s.set = true; s.null = res == nullptr;
    if (res) read_out(res, s.snap);
    ah(s.null ? "NULL" : "OUT"); for (auto& x : s.snap) ah(x);
    long x = o.g("x"); int q = ppq[o.g("s")], f = o.g("f");
    bool empty_file = f >= (int)c.docs.size() || c.docs[f].empty();
    switch (x) {
      case 1: case 3: {
        if (x == 3 && s.null) { R->work++; return; }
        if (f >= (int)c.docs.size()) { R->work++; if (!s.null) rt_fail("answer", name(o) + ": a result for a file that does not exist"); return; }
        if (!ref.count({q, f})) return;
        vector<string> want = prefix(q, f, upto < 0 ? (long)c.docs[f].size() : upto); expect(o, s.snap, s.null, want, "the reference evaluation"); break; }
      case 5: {   // f is a torn copy of the document `whole`: what it still holds completely
        int w = o.g("whole"); if (!ref.count({q, w}) || w >= (int)c.docs.size() || f >= (int)c.docs.size() || c.docs[w].compare(0, c.docs[f].size(), c.docs[f])) return;
        vector<string> want = prefix(q, w, c.docs[f].size());
        // whether a number or literal that reaches the tear is complete cannot be told; a string can, and one that is a key without a value is no match
        if (s.snap.size() == want.size() + 1) { string d = c.docs[f], e = s.snap.back(); while (!d.empty() && isspace((unsigned char)d.back())) d.pop_back(); if (!e.empty() && e[0] != '{' && e[0] != '[' && e[0] != '"' && d.size() >= e.size() && d.compare(d.size() - e.size(), e.size(), e) == 0) want.push_back(e); }
        // a parallel run settles the last chunk at string tokens: what comes after the last one may be missing
        if (s.snap.size() < want.size() && k_parallel(o)) { long b = 0; for (int z : ts[f]) b = z; vector<string> least = prefix(q, w, b); if (s.snap.size() >= least.size()) want.resize(s.snap.size()); }
        expect(o, s.snap, s.null, want, "the reference evaluation of the part before the tear"); break; }
      case 2: case 4: {
        OutSlot& y = out[o.g("y")]; if (!y.set) return; if (x == 4 && s.null) { R->work++; return; }
        if (empty_file && s.snap.empty() && y.snap.empty()) { R->work++; return; }
        if (y.null || s.null) { R->work++; if (y.null != s.null) rt_fail("answer", name(o) + (s.null ? ": no result object although the serial run gave one" : ": a result object although the serial run gave none")); return; }
        expect(o, s.snap, false, y.snap, "the serial run"); break; }
      default: if (c.prop == "C13" && !s.snap.empty()) { R->work++; R->nonempty++; } break;
    }
  }
  // the file an operation uses; several documents may follow each other under one name
  std::map<long, long> held;
  string fname(const Op& o) { long f = o.g("f"), as = o.g("as", f); string n = "sim-" + std::to_string(as) + ".json"; long& h = held.emplace(as, as).first->second; if (h != f && f < (long)c.docs.size()) { rt_add_file(n, c.docs[f]); h = f; } return n; }
  void run(const Op& o) {
    const string& k = o.kind; long s = o.g("s"), f = o.g("f"), n = o.g("n", 1);
    rt_paint_stack();
    auto CT = [&]() -> void* { long t = o.g("t", -1); return t < 0 ? nullptr : ct[t]; };
    if (k == "pp") { if (pp[s]) return; char* t = text(c.queries[o.g("q")]); void* p; { InSim i; p = shim_pp_new(t); } untext(t); pp[s] = p; ppq[s] = o.g("q");
      ah(p ? "PP" : "NOPP"); if (o.g("bad") == 1 && p) rt_fail("answer", "a malformed path was accepted: " + c.queries[o.g("q")]); if (o.g("bad") == 0 && !p && !rt_fired(F_MALLOC)) rt_fail("answer", "a valid path was refused: " + c.queries[o.g("q")]); }
    else if (k == "freepp") { if (!pp[s]) return; { InSim i; shim_pp_free(pp[s]); } pp[s] = nullptr; }
    else if (k == "train") { if (!pp[s]) return; string fn = fname(o); char* t = text(fn); { InSim i; ct[o.g("t")] = shim_train(pp[s], t); } untext(t); if (o.g("x") == 1 && f < (int)c.docs.size() && !ct[o.g("t")]) rt_fail("answer", name(o) + ": no constraint table"); }
    else if (k == "freect") { void*& t = ct[o.g("t")]; if (!t) return; { InSim i; shim_ct_free(t); } t = nullptr; }
    else if (k == "serial" || k == "par" || k == "opt" || k == "internal") {
      if (!pp[s]) return; if (k == "opt" && o.g("t", -1) >= 0 && !CT()) return; string fn = fname(o); char* t = text(fn); void* r; 
      { InSim i; r = k == "serial" ? shim_serial(pp[s], t) : k == "par" ? shim_par(pp[s], t, n) : k == "opt" ? shim_opt(pp[s], t, n, CT()) : shim_internal(pp[s], t, n, CT(), o.g("m")); }
      if (fn != t) rt_fail("answer", name(o) + ": the file name was modified"); untext(t); 
      result(o, r); }
    else if (k == "free") { OutSlot& y = out[o.g("o")]; if (!y.set) return; if (y.o) { InSim i; shim_out_free(y.o); } y.o = nullptr; y.set = false; }
    else if (k == "check") { OutSlot& y = out[o.g("o")]; if (!y.set || !y.o) return; vector<string> v; read_out(y.o, v); R->work++; if (!v.empty()) R->nonempty++; if (v != y.snap) rt_fail("answer", name(o) + ": a result list changed after it was returned: now " + show(v) + ", before " + show(y.snap)); }
    else if (k == "ctx") { long x = o.g("c"); if (ctx[x]) return; { InSim i; ctx[x] = shim_ctx_new(); } fed[x] = 0; }
    else if (k == "feed") {
      long x = o.g("c"); if (!ctx[x] || !pp[s] || f >= (long)c.docs.size()) return; const string& d = c.docs[f];
      if (o.g("m") == 2 && o.g("t", -1) >= 0 && !CT()) return;
      int b = fed[x], e = o.p.count("at") ? std::min<long>(o.g("at"), d.size()) : cut_at(d, ts[f], o.g("to", 1000)); if (e < b) e = b; if (e == b && !(b == 0 && d.empty()) && !o.g("empty")) return;
      string piece = d.substr(b, e - b); char* t = text(piece); if (!t) return; void* r; { InSim i; r = shim_feed(ctx[x], pp[s], t, o.g("m"), n, CT()); }
      if (memcmp(t, piece.c_str(), piece.size() + 1)) rt_fail("answer", name(o) + ": the input text was modified"); untext(t); fed[x] = e;
      // the same list grows with every partial run; only the last one is released
      long so = o.g("o"); result(o, r, e); (void)so; }
    else if (k == "ctxdel") { long x = o.g("c"); if (!ctx[x]) return; { InSim i; shim_ctx_del(ctx[x]); } ctx[x] = nullptr; }
    else if (k == "partmem" || k == "partfile") {
      if (f >= (long)c.docs.size()) return; const string& d = c.docs[f]; int num = -1; char** p; string fn = fname(o);
      if (k == "partmem") { char* t = text(d); { InSim i; p = shim_partmem(t, n, &num); } if (memcmp(t, d.c_str(), d.size() + 1)) rt_fail("answer", name(o) + ": the input text was modified"); untext(t); }
      else { char* t = text(fn); { InSim i; p = shim_partfile(t, n, &num); } untext(t); }
      bool faulty = rt_fired(F_READ) + rt_fired(F_READP) + rt_fired(F_OPEN) + rt_fired(F_SEEK) > 0;
      if (num == 0 && faulty) { R->work++; InSim i; shim_part_free(p, num); return; }
      if (num < 1 || num > n) rt_fail("answer", name(o) + ": " + std::to_string(num) + " chunks");
      string all; vector<int> bounds; for (int j = 0; j < num; j++) { if (!p[j]) rt_fail("answer", name(o) + ": a chunk without text"); size_t bs = rt_block_size(p[j]); size_t len = bs == (size_t)-1 ? strlen(p[j]) : strnlen(p[j], bs); if (j) bounds.push_back(all.size()); all += string(p[j], len); ah(string(p[j], len)); }
      R->work++; if (num > 1) R->nonempty++;
      if (all != d) rt_fail("answer", name(o) + ": the chunks do not add up to the input (" + std::to_string(all.size()) + " bytes of " + std::to_string(d.size()) + ")");
      for (int b : bounds) if (b != (int)d.size() && !std::binary_search(ts[f].begin(), ts[f].end(), b)) rt_fail("answer", name(o) + ": a chunk starts inside a token or not at a string token, at byte " + std::to_string(b));
      { InSim i; shim_part_free(p, num); } }
    else if (k == "loadb") {
      if (f >= (long)c.docs.size()) return; const string& d = c.docs[f]; string fn = fname(o); int pos = 0; string all; int pieces = 0; bool failed = false; int was = 0;
      while (true) { char* t = text(fn); char* p; was = pos; { InSim i; p = shim_loadb(t, &pos); } untext(t);
        if (!p) { failed = pos < 0; break; } size_t bs = rt_block_size(p); size_t len = strnlen(p, bs == (size_t)-1 ? 1 << 30 : bs); all += string(p, len); ah(string(p, len)); untext(p); pieces++;
        if (pos != was + (int)len) rt_fail("answer", name(o) + ": the next position is " + std::to_string(pos) + " after a piece of " + std::to_string(len) + " bytes from " + std::to_string(was));
        if (len == 0) rt_fail("answer", name(o) + ": an empty piece");
        if (pos < (int)d.size() && !std::binary_search(ts[f].begin(), ts[f].end(), pos)) rt_fail("answer", name(o) + ": a piece ends inside a token or not before a string token, at byte " + std::to_string(pos));
        if ((int)len > footprint) { int lim = was + footprint; for (int z : ts[f]) if (z > lim && z < pos) rt_fail("answer", name(o) + ": a piece runs past the first token boundary after the memory footprint"); } 
        if (pieces > (int)d.size() + 2) rt_fail("answer", name(o) + ": no progress"); }
      R->work++; if (pieces > 1) R->nonempty++;
      bool faulty = rt_fired(F_READ) + rt_fired(F_READP) + rt_fired(F_OPEN) + rt_fired(F_SEEK) > 0;
      if (failed && !faulty) rt_fail("answer", name(o) + ": a readable file was reported as unreadable");
      if (failed ? all != d.substr(0, all.size()) : all != d) rt_fail("answer", name(o) + ": the pieces do not add up to the file (" + std::to_string(all.size()) + " bytes of " + std::to_string(d.size()) + ")"); }
    else if (k == "load") {
      string fn = fname(o); char* t = text(fn); char* p; { InSim i; p = shim_load(t); } untext(t); R->work++;
      bool faulty = rt_fired(F_READ) + rt_fired(F_READP) + rt_fired(F_OPEN) + rt_fired(F_SEEK) > 0;
      if (f >= (long)c.docs.size()) { if (p) rt_fail("answer", name(o) + ": text of a file that does not exist"); return; }
      if (!p) { if (!faulty) rt_fail("answer", name(o) + ": a readable file was not loaded"); return; }
      size_t bs = rt_block_size(p); string all(p, strnlen(p, bs == (size_t)-1 ? 1 << 30 : bs)); if (all != c.docs[f]) rt_fail("answer", name(o) + ": the text differs from the file"); untext(p); R->nonempty++; }
    else if (k == "footprint") { footprint = o.g("v"); rt_footprint(footprint); }
    else if (k == "mark") { marks[o.g("k")] = {rt_live_bytes(), rt_live_blocks(), true}; rt_reset_peak(); }
    else if (k == "same") { MarkS m = marks[o.g("k")]; if (!m.set) return; R->work++; if (rt_live_blocks() > m.blocks || rt_live_bytes() > m.bytes) rt_fail("leak", "memory grew from " + std::to_string(m.bytes) + " bytes in " + std::to_string(m.blocks) + " blocks to " + std::to_string(rt_live_bytes()) + " in " + std::to_string(rt_live_blocks()) + " although everything was released:" + rt_describe_live(6)); }
    else if (k == "peak") { MarkS m = marks[o.g("k")]; if (!m.set) return; R->work++; uint64_t lim = m.bytes + o.g("max"); if (rt_peak_bytes() > lim) rt_fail("leak", name(o) + ": " + std::to_string(rt_peak_bytes() - m.bytes) + " bytes were in use at once"); rt_reset_peak(); }
    else if (k == "level" || k == "top") {   // memory held (level) or used at once (top) beyond the returned results, against the first time
      OutSlot& y = out[o.g("o")]; if (!y.set || !y.o) return; uint64_t ob = out_bytes(y.o, k == "top"), now = k == "level" ? rt_live_bytes() : rt_peak_bytes(); long v = (long)now - (long)ob, i = o.g("i"); R->work++; if (!y.snap.empty()) R->nonempty++;
      if (o.g("base")) { lev[i] = v + (long)o.g("slack") + (o.g("addout") ? (long)ob : 0); rt_reset_peak(); return; } if (!lev.count(i)) return;
      if (v > lev[i]) rt_fail("leak", name(o) + ": " + std::to_string(v) + " bytes besides the results after more of the stream, at most " + std::to_string(lev[i]) + " expected from the same piece before:" + rt_describe_live(6)); rt_reset_peak(); }
    else if (k == "heal") rt_heal();
    else if (k == "note") rt_note();
    else if (k == "files") { R->work++; if (rt_open_files()) rt_fail("leak", std::to_string(rt_open_files()) + " files are still open"); }
    else rt_fail("harness", "unknown operation " + k);
  }
  int footprint = 250000000; std::map<long, long> lev;
  uint64_t out_bytes(void* o, bool twice) { uint64_t b = 0; auto add = [&](const void* p) { size_t n = p ? rt_block_size(p) : 0; if (n != (size_t)-1) b += n; }; const void* a; int n; { InSim i; n = shim_out_size(o); a = shim_out_array(o); } add(o); add(a); if (twice) add(a); for (int k = 0; k < n; k++) { const char* e; { InSim i; e = shim_out_get(o, k); } add(e); } return b; }
  void program(int client, int phase) { for (auto& o : c.ops) if (o.phase == phase && o.client == client) { run(o); rt_yield(); } }
  void root() {
    footprint = c.cfg.footprint;
    program(0, 0);
    vector<int> cl; for (auto& o : c.ops) if (o.phase == 1 && std::find(cl.begin(), cl.end(), o.client) == cl.end()) cl.push_back(o.client);
    vector<int> ids; for (int k : cl) ids.push_back(rt_spawn_client(k, [this, k] { program(k, 1); }));
    for (int i : ids) rt_join(i);
    program(0, 2);
    R->anshash = anshash;
  }
};
#include "gen.hpp"

// ================================================================ running children
static string err_note;
static int run_child(const Case& c, bool second = false) {
  memset((void*)R, 0, offsetof(RunResult, cov)); R->ncov = 0; R->nlog = 0; R->nswitch = 0; R->overflow = 0;
  pid_t p = fork();
  if (p == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); if (!getenv("SIM_STDERR")) { int dn = open("/dev/null", O_WRONLY); dup2(dn, 2); }
    Case k = c; if (second) twin_cfg(k);
    Exec* e = new Exec(k);
    if (e->ref_missing) { R->status = 4; snprintf(R->msg, sizeof R->msg, "reference evaluation refused the case"); _exit(0); }
    rt_run(k.cfg, [e] { e->root(); });
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0) {}
  if (R->status == 0) { R->status = 2; snprintf(R->kind, sizeof R->kind, "crash"); snprintf(R->msg, sizeof R->msg, "the process ended unexpectedly (wait status %d)", st); R->hash = 77; }
  return R->status;
}
// runs the case (both runs of a twin case); returns the status and leaves the result in R
static uint64_t extra_steps;
static int run_case(const Case& c) {
  extra_steps = 0;
  int st = run_child(c);
  if (!c.twin || st != 1) return st;
  static RunResult* first = (RunResult*)malloc(sizeof(RunResult)); memcpy(first, R, offsetof(RunResult, cov));
  st = run_child(c, true); extra_steps = first->st.steps;
  if (st == 1 && R->anshash != first->anshash) { R->status = st = 2; snprintf(R->kind, sizeof R->kind, "answer"); snprintf(R->msg, sizeof R->msg, "two runs of the same operations on the same inputs, differing only in memory contents and layout, schedule and clock, gave different results"); R->hash ^= first->hash * 31; }
  R->work += first->work; R->nonempty += first->nonempty; for (int i = 0; i < F_NKINDS; i++) R->st.fired[i] += first->st.fired[i];
  return st;
}

// faults given as a fraction (nth < 0) are placed among the calls that a run without faults makes
static Case make_case(const string& prop, uint64_t seed, bool th) {
  Case c = gen_case(prop, seed, th); bool rel = false; size_t bytes = 0; for (auto& d : c.docs) bytes += d.size(); c.cfg.maxsteps += std::min<size_t>(bytes, 6000) * 25000; c.cfg.maxsteps += bytes * 800; for (auto& f : c.cfg.faults) rel |= f.nth < 0; if (!rel) return c;
  Case t = c; t.twin = 0; t.cfg.faults.clear(); run_child(t);
  for (auto& f : c.cfg.faults) if (f.nth < 0) { long x = -f.nth - 1; bool after = x / 1000000 & 1, site = x >= 2000000; x %= 1000000; int cl = f.client & 7; long lo = after ? R->st.calls0[cl][f.kind] : 0, n = std::max<long>(1, (long)R->st.calls[cl][f.kind] - lo); f.nth = lo + 1 + x * n / 1000000;
    if (!site) continue;   // otherwise every place that makes such calls is equally likely, and then every call from there
    std::map<uint32_t, vector<uint32_t>> by; for (uint32_t i = 0; i < R->nlog; i++) { auto& l = R->log[i]; if (l.client == cl && l.kind == f.kind && l.nth > lo) by[l.site].push_back(l.nth); } if (by.empty()) continue;
    Rng r(x + seed); auto it = by.begin(); std::advance(it, r.below(by.size())); f.nth = r.pick(it->second); }
  return c;
}

// ================================================================ statistics shared by the workers
struct Stats {
  volatile uint64_t runs, nontrivial, steps, simtime, switches, tasks, failstops, work, nonempty, reprocess, harness_err, refmiss, bytes_read, opens, mallocs, races; volatile uint64_t fired[F_NKINDS], modes[8];
  volatile int stop; volatile int found; volatile uint64_t bad_seed; volatile uint64_t maxstep;
  volatile uint64_t distinct_cases, distinct_ilv; volatile uint8_t cov[65536]; volatile uint32_t ncov;
  char note[2000];
};
static Stats* S; static Stats* SW;   // SW: per worker
static RunResult* alloc_result() { return (RunResult*)mmap(0, sizeof(RunResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); }

static void worker(int w, int W, const string& prop, uint64_t seed, double secs, uint64_t maxruns, bool thorough) {
  R = alloc_result(); Stats& s = SW[w]; double t0 = now(); std::unordered_set<uint64_t> cases, ilvs;
  for (uint64_t k = w; k < maxruns && now() - t0 < secs && !S->stop; k += W) {
    uint64_t cs = seed * 1000003 + k; Case c = make_case(prop, cs, thorough);
    int st = run_case(c); s.runs++;
    if (st == 4) { s.refmiss++; continue; }
    s.steps += R->st.steps + extra_steps; s.simtime += R->st.simtime_ns; s.switches += R->st.switches; s.tasks += R->st.tasks; s.work += R->work; s.nonempty += R->nonempty; s.reprocess += R->st.probe_reprocess; s.bytes_read += R->st.bytes_read; s.opens += R->st.opens; s.mallocs += R->st.mallocs; s.races += R->st.race_hits; s.modes[c.cfg.mode & 7]++;
    if (R->st.steps > s.maxstep) s.maxstep = R->st.steps;
    for (int i = 0; i < F_NKINDS; i++) s.fired[i] += R->st.fired[i];
    for (uint32_t i = 0; i < R->ncov; i++) if (R->cov[i]) s.cov[i] = 1; s.ncov = R->ncov;
    bool faulted = false; for (int i = 0; i < F_NKINDS; i++) faulted |= R->st.fired[i] > 0;
    Case id = c; id.seed = 0; id.cfg.memseed = id.cfg.schedseed = id.cfg.ioseed = 0; 
    bool nt = R->nonempty > 0 || (R->work > 0 && faulted) || st == 3; 
    if (nt && cases.insert(hash_str(to_text(id))).second) s.nontrivial++;
    if (R->st.switches) ilvs.insert(R->st.ilv_hash ^ hash_str(c.docs.empty() ? "" : c.docs[0]));
    s.distinct_ilv = ilvs.size(); s.distinct_cases = cases.size();
    if (st == 3) s.failstops++;
    if (st == 2) {
      if (!strcmp(R->kind, "harness")) { s.harness_err++; snprintf(S->note, sizeof S->note, "%s", R->msg); S->stop = 1; break; }
      if (!__sync_lock_test_and_set(&S->found, 1)) { S->bad_seed = cs; S->stop = 1; }
      break;
    }
  }
  _exit(0);
}

// ================================================================ minimisation
static int tries; static double min_deadline;
static bool still(const Case& c, const string& kind) { if (now() > min_deadline) return false; tries++; return run_case(c) == 2 && kind == R->kind; }
static void collect(Val& v, vector<Val*>& o) { for (auto& k : v.kids) { o.push_back(&k); collect(k, o); } }
static string render(vector<Val>& vs) { Rng r(1); Style st; string o; for (size_t i = 0; i < vs.size(); i++) { if (i) o += "\n"; ser(vs[i], r, st, o); } return o; }
static bool min_doc(Case& c, size_t di, const string& kind) {
  bool any = false; vector<Val> vs; if (!parse_stream(c.docs[di], vs)) {
    // not JSON: remove byte ranges
    for (size_t len = c.docs[di].size() / 2; len >= 1; len /= 2) for (size_t i = 0; i + len <= c.docs[di].size();) { Case t = c; t.docs[di].erase(i, len); if (still(t, kind)) { c = t; any = true; } else i += len; if (now() > min_deadline) return any; }
    return any;
  }
  { Case t = c; t.docs[di] = render(vs); if (t.docs[di] != c.docs[di] && still(t, kind)) { c = t; any = true; } }
  bool prog = true;
  while (prog && now() < min_deadline) {
    prog = false; vs.clear(); if (!parse_stream(c.docs[di], vs)) break; bool compact; { vector<Val> z = vs; compact = render(z) == c.docs[di]; }
    auto attempt = [&](vector<Val>& nv) { Case t = c; t.docs[di] = render(nv); if (t.docs[di].size() >= c.docs[di].size() && compact) return false; if (!still(t, kind)) return false; c = t; return true; };
    if (vs.size() > 1) for (size_t i = 0; i < vs.size() && !prog && now() < min_deadline; i++) { vector<Val> nv = vs; nv.erase(nv.begin() + i); if (attempt(nv)) prog = true; }
    if (prog) { any = true; continue; }
    // containers, outermost first: drop halves then single members; replace a value by a primitive or by its child
    size_t total = 0; { vector<Val*> o; for (auto& v : vs) { o.push_back(&v); collect(v, o); } total = o.size(); }
    for (size_t i = 0; i < total && !prog && now() < min_deadline; i++) {
      auto get = [&](vector<Val>& nv) { vector<Val*> o; for (auto& v : nv) { o.push_back(&v); collect(v, o); } return o[i]; };
      Val* v0 = get(vs); size_t n = v0->kids.size();
      for (size_t len = n; len >= 1 && !prog; len /= 2) for (size_t b = 0; b < n && !prog && now() < min_deadline; b += len) { vector<Val> nv = vs; Val* v = get(nv); size_t e = std::min(n, b + len); v->kids.erase(v->kids.begin() + b, v->kids.begin() + e); if (v->t == 'o') v->keys.erase(v->keys.begin() + b, v->keys.begin() + e); if (attempt(nv)) prog = true; }
      if (!prog && v0->t != 'p' && i >= vs.size()) { vector<Val> nv = vs; Val* v = get(nv); *v = Val(); v->text = "1"; if (attempt(nv)) prog = true; }
      for (size_t j = 0; j < n && !prog && now() < min_deadline; j++) if (v0->kids[j].t != 'p') { vector<Val> nv = vs; Val* v = get(nv); Val ch = v->kids[j]; *v = ch; if (attempt(nv)) prog = true; }
      if (!prog && v0->t == 'p' && v0->text.size() > 1 && v0->text[0] != '"') { vector<Val> nv = vs; get(nv)->text = "1"; if (attempt(nv)) prog = true; }
      if (!prog && v0->t == 'p' && v0->text.size() > 3 && v0->text[0] == '"') { vector<Val> nv = vs; get(nv)->text = "\"x\""; if (attempt(nv)) prog = true; }
    }
    any |= prog;
  }
  return any;
}
static void minimise(Case& c, const string& kind, double secs) {
  min_deadline = now() + secs; tries = 0; Case t;
  bool prog = true; int round = 0;
  while (prog && now() < min_deadline && round++ < 6) {
    prog = false;
    auto T = [&](std::function<void(Case&)> f) { Case t = c; f(t); if (to_text(t) == to_text(c)) return; if (still(t, kind)) { c = t; prog = true; } };
    // environment
    T([](Case& t) { t.cfg.shortread = 0; t.cfg.stdiobuf = 0; }); T([](Case& t) { t.cfg.comma = 0; }); T([](Case& t) { t.cfg.fill = 1; t.cfg.layout = 0; t.cfg.gap = 0; t.cfg.paint = 1; });
    for (int m : {6, 4}) if (c.cfg.mode != 6) T([m](Case& t) { t.cfg.mode = m; t.cfg.stall = -1; t.cfg.list.clear(); });
    T([](Case& t) { t.cfg.stall = -1; });
    for (size_t i = 0; i < c.cfg.faults.size();) { size_t n = c.cfg.faults.size(); T([i](Case& t) { t.cfg.faults.erase(t.cfg.faults.begin() + i); }); if (c.cfg.faults.size() == n) i++; }
    if (c.prop == "C23") continue;   // the repetitions and where they are cut are the point: only environment and schedule get simpler
    // operations
    for (size_t len = c.ops.size() / 2; len >= 1; len /= 2) for (size_t i = 0; i < c.ops.size();) { size_t n = c.ops.size(); size_t e = std::min(n, i + len); T([i, e](Case& t) { t.ops.erase(t.ops.begin() + i, t.ops.begin() + e); }); if (c.ops.size() == n) i += len; if (now() > min_deadline) return; }
    for (size_t i = 0; i < c.ops.size(); i++) if (c.ops[i].g("n") > 2) for (long n : {2l, 3l, 4l, c.ops[i].g("n") / 2, c.ops[i].g("n") - 1}) if (n < c.ops[i].g("n") && n > 0) T([i, n](Case& t) { t.ops[i].p["n"] = n; });
    for (size_t i = 0; i < c.docs.size(); i++) if (min_doc(c, i, kind)) prog = true;
    for (size_t q = 0; q < c.queries.size(); q++) { Query qq; QParser qp(c.queries[q]); if (!qp.parse(qq)) continue; for (size_t j = 0; j < qq.size(); j++) { Query z = qq; z.erase(z.begin() + j); string s = query_str(z); if (z.empty() || z.back().t == 'f') continue; T([q, s](Case& t) { t.queries[q] = s; }); if (c.queries[q] == s) break; }
      qq.clear(); QParser q2(c.queries[q]); if (q2.parse(qq)) for (size_t j = 0; j < qq.size(); j++) if (qq[j].t == 'f' && qq[j].e.op != 'v') for (auto& k : qq[j].e.k) { Query z = qq; z[j].e = k; string s = query_str(z); if (k.op == 'n' || k.op == 's') continue; T([q, s](Case& t) { t.queries[q] = s; }); } }
  }
  // the schedule as an explicit list of context switches, then drop switches
  if (!c.twin) {
    run_case(c);
    if (R->status == 2 && kind == R->kind && !R->overflow) {
      Case t = c; t.cfg.mode = 5; t.cfg.stall = -1; t.cfg.list.assign(R->sw, R->sw + R->nswitch); uint64_t h = R->hash; string msg = R->msg;
      if (still(t, kind)) {
        for (size_t len = std::max<size_t>(1, t.cfg.list.size() / 2); len >= 1; len /= 2) for (size_t i = 0; i < t.cfg.list.size();) { Case u = t; u.cfg.list.erase(u.cfg.list.begin() + i, u.cfg.list.begin() + std::min(u.cfg.list.size(), i + len)); if (still(u, kind)) t = u; else i += len; if (now() > min_deadline + 5) break; }
        c = t;
      }
      (void)h;
    }
  }
}

static string slurp(const string& f) { std::ifstream in(f, std::ios::binary); std::stringstream ss; ss << in.rdbuf(); return ss.str(); }
static string symbolise(uint64_t pc) { if (!pc) return ""; char cmd[600], self[400]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); if (n < 0) return ""; self[n] = 0; snprintf(cmd, sizeof cmd, "addr2line -f -s -e %s %llx 2>/dev/null | tr '\\n' ' '", self, (unsigned long long)pc - 1); FILE* p = popen(cmd, "r"); char b[500] = ""; if (p) { size_t k = fread(b, 1, sizeof b - 1, p); b[k] = 0; pclose(p); } return b; }

static string jstr(const string& s) { string o = "\""; char b[10]; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += c; } return o + "\""; }

int main(int argc, char** argv) {
  // addresses must not depend on the kernel's choice
  if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) { if (personality(ADDR_NO_RANDOMIZE) >= 0 && (personality(0xffffffff) & ADDR_NO_RANDOMIZE)) execv("/proc/self/exe", argv); }
  std::map<string, string> a; string cmd = argc > 1 ? argv[1] : ""; vector<string> pos; for (int i = 2; i < argc; i++) { string s = argv[i]; if (s.compare(0, 2, "--") == 0 && i + 1 < argc) a[s.substr(2)] = argv[++i]; else pos.push_back(s); }
  rt_init_process();
  int saved = dup(1); int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); FILE* out = fdopen(saved, "w"); setvbuf(out, 0, _IOLBF, 0);
  R = alloc_result();
  if (cmd == "gen") { Case c = make_case(a["prop"], strtoull(a["seed"].c_str(), 0, 10), a.count("thorough")); fputs(to_text(c).c_str(), out); return 0; }
  if (cmd == "run" || cmd == "replay") {   // replay FILE | run --prop P --seed N
    Case c; if (cmd == "run") c = make_case(a["prop"], strtoull(a["seed"].c_str(), 0, 10), a.count("thorough")); else if (!from_text(slurp(pos[0]), c)) { fprintf(stderr, "cannot read %s\n", pos[0].c_str()); return 3; }
    int st = run_case(c);
    fprintf(out, "status=%d kind=%s hash=%016llx answers=%016llx steps=%llu switches=%llu tasks=%llu work=%llu nonempty=%llu reprocess=%llu maxlive=%llu\n", st, R->kind, (unsigned long long)R->hash, (unsigned long long)R->anshash, (unsigned long long)R->st.steps, (unsigned long long)R->st.switches, (unsigned long long)R->st.tasks, (unsigned long long)R->work, (unsigned long long)R->nonempty, (unsigned long long)R->st.probe_reprocess, (unsigned long long)R->st.maxlive);
    if (st >= 2) { fprintf(out, "%s\n", R->msg); for (int i = 0; i < 6; i++) if (R->pc[i]) fprintf(out, "  at %s\n", symbolise(R->pc[i]).c_str()); }
    return st == 2 ? 1 : st == 4 ? 3 : 0;
  }
  if (cmd == "determinism") {   // runs N cases twice, compares the event hashes
    int n = atoi(a["n"].c_str()), bad = 0; uint64_t seed = strtoull(a["seed"].c_str(), 0, 10); uint64_t all = 0;
    for (int i = 0; i < n; i++) { Case c = make_case(a["prop"], seed * 1000003 + i, false); int s1 = run_case(c); uint64_t h = R->hash, an = R->anshash; Case d; from_text(to_text(c), d); int s2 = run_case(d); if (s1 != s2 || h != R->hash || an != R->anshash) { bad++; fprintf(out, "seed %llu differs\n", (unsigned long long)(seed * 1000003 + i)); }
      if (!c.twin && s1 != 4 && !R->overflow) { Case e = c; e.cfg.mode = 5; e.cfg.stall = -1; e.cfg.list.assign(R->sw, R->sw + R->nswitch); int s3 = run_case(e); if (s3 != s1 || R->hash != h) { bad++; fprintf(out, "seed %llu differs under its own switch list\n", (unsigned long long)(seed * 1000003 + i)); } } all = all * 31 + h; }
    fprintf(out, "determinism: %d cases, %d differ, digest %016llx\n", n, bad, (unsigned long long)all); return bad ? 1 : 0;
  }
  if (cmd != "search") { fprintf(stderr, "usage: sim search|run|replay|gen|determinism\n"); return 3; }
  string prop = a["prop"]; uint64_t seed = strtoull(a.count("seed") ? a["seed"].c_str() : "1", 0, 10); double secs = a.count("secs") ? atof(a["secs"].c_str()) : 20; int W = a.count("workers") ? atoi(a["workers"].c_str()) : 8; uint64_t maxruns = a.count("runs") ? strtoull(a["runs"].c_str(), 0, 10) : ~0ull; bool th = a.count("thorough");
  S = (Stats*)mmap(0, sizeof(Stats), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); SW = (Stats*)mmap(0, sizeof(Stats) * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  double t0 = now(); vector<pid_t> ps; for (int w = 0; w < W; w++) { pid_t p = fork(); if (!p) worker(w, W, prop, seed, secs, maxruns, th); ps.push_back(p); }
  for (pid_t p : ps) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) { S->harness_err++; snprintf(S->note, sizeof S->note, "a worker ended with status %d", st); } }
  double wall = now() - t0;
  Stats T; memset((void*)&T, 0, sizeof T); uint32_t cov = 0, ncov = 0;
  for (int w = 0; w < W; w++) { Stats& s = SW[w]; 
#define ADD(x) T.x += s.x
    ADD(runs); ADD(nontrivial); ADD(steps); ADD(simtime); ADD(switches); ADD(tasks); ADD(failstops); ADD(work); ADD(nonempty); ADD(reprocess); ADD(harness_err); ADD(refmiss); ADD(distinct_ilv); ADD(distinct_cases); ADD(bytes_read); ADD(opens); ADD(mallocs); ADD(races); if (s.maxstep > T.maxstep) T.maxstep = s.maxstep;
    for (int i = 0; i < F_NKINDS; i++) ADD(fired[i]); for (int i = 0; i < 8; i++) ADD(modes[i]); for (uint32_t i = 0; i < s.ncov; i++) T.cov[i] |= s.cov[i]; if (s.ncov > ncov) ncov = s.ncov; }
  for (uint32_t i = 0; i < ncov; i++) cov += T.cov[i];
  int rc = 0; string verdict = "held", msg, replay;
  if (T.harness_err || S->harness_err) { rc = 3; verdict = "harness-error"; msg = S->note; }
  else if (S->found) {
    Case c = make_case(prop, S->bad_seed, th); int st = run_case(c); string kind = R->kind; uint64_t h = R->hash; string m1 = R->msg; 
    int st2 = run_case(c);
    if (st != 2 || st2 != 2 || R->hash != h) { rc = 3; verdict = "not-reproducible"; msg = "seed " + std::to_string(S->bad_seed) + ": " + m1; }
    else {
      string orig = to_text(c); minimise(c, kind, a.count("minsecs") ? atof(a["minsecs"].c_str()) : 25);
      run_case(c); if (R->status != 2) { from_text(orig, c); run_case(c); }
      kind = R->kind; msg = R->msg; h = R->hash; string at; for (int i = 0; i < 6; i++) if (R->pc[i]) at += "#   at " + symbolise(R->pc[i]) + "\n";
      replay = a["replay"]; { std::ofstream f(replay, std::ios::binary); f << to_text(c) << "# property " << prop << ", found with seed " << S->bad_seed << ", violation: " << kind << "\n# " << esc(msg) << "\n" << at << "# hash " << std::hex << h << std::dec << "\n"; }
      // the replay file must reproduce exactly this in a fresh process
      char self[400]; ssize_t n = readlink("/proc/self/exe", self, sizeof self - 1); self[n > 0 ? n : 0] = 0; FILE* p = popen((string(self) + " replay " + replay).c_str(), "r"); char line[600] = ""; if (p) { if (!fgets(line, sizeof line, p)) line[0] = 0; while (p && fgetc(p) != EOF) {} }
      int prc = p ? pclose(p) : -1; char hs[40]; snprintf(hs, sizeof hs, "hash=%016llx", (unsigned long long)h);
      if (!WIFEXITED(prc) || WEXITSTATUS(prc) != 1 || !strstr(line, hs)) { rc = 3; verdict = "replay-differs"; msg = string("the replay file did not reproduce the violation: ") + line + " / " + msg; }
      else { rc = 1; verdict = "violated"; msg = kind + ": " + msg + (at.empty() ? "" : "\n" + at); }
    }
  }
  fprintf(out, "{\"verdict\":%s,\"message\":%s,\"seed_found\":%llu,\"runs\":%llu,\"nontrivial\":%llu,\"distinct_cases\":%llu,\"distinct_interleavings\":%llu,\"steps\":%llu,\"simulated_ns\":%llu,\"switches\":%llu,\"tasks\":%llu,\"failstops\":%llu,\"answers_checked\":%llu,\"answers_nonempty\":%llu,\"reprocessed_units\":%llu,\"reference_refused\":%llu,\"bytes_read\":%llu,\"files_opened\":%llu,\"allocations\":%llu,\"race_pairs\":%llu,\"max_steps\":%llu,\"edges_covered\":%u,\"edges\":%u,\"wall\":%.2f,\"minimise_tries\":%d,", jstr(verdict).c_str(), jstr(msg).c_str(), (unsigned long long)S->bad_seed, (unsigned long long)T.runs, (unsigned long long)T.nontrivial, (unsigned long long)T.distinct_cases, (unsigned long long)T.distinct_ilv, (unsigned long long)T.steps, (unsigned long long)T.simtime, (unsigned long long)T.switches, (unsigned long long)T.tasks, (unsigned long long)T.failstops, (unsigned long long)T.work, (unsigned long long)T.nonempty, (unsigned long long)T.reprocess, (unsigned long long)T.refmiss, (unsigned long long)T.bytes_read, (unsigned long long)T.opens, (unsigned long long)T.mallocs, (unsigned long long)T.races, (unsigned long long)T.maxstep, cov, ncov, wall, tries);
  fprintf(out, "\"faults\":{"); for (int i = 0; i < F_NKINDS; i++) fprintf(out, "%s\"%s\":%llu", i ? "," : "", fault_names[i], (unsigned long long)T.fired[i]);
  fprintf(out, "},\"schedule_modes\":{"); const char* mn[] = {"random", "pct", "run_to_completion", "round_robin", "newest_first", "list", "oldest_first"}; for (int i = 0; i < 7; i++) fprintf(out, "%s\"%s\":%llu", i ? "," : "", mn[i], (unsigned long long)T.modes[i]);
  fprintf(out, "}}\n");
  return rc;
}
