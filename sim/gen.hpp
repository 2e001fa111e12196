// Case generators, one per property.
#pragma once
static void mem_cfg(Rng& r, SimCfg& f) {
  f.fill = r.pick(vector<int>{0, 1, 1, 2, 2, 3, 4, 5}); f.layout = r.below(3); f.gap = r.chance(.3) ? r.range(1, 40) : 0; f.paint = r.chance(.15) ? 2 : r.chance(.85) ? 1 : 0; f.memseed = r.next() & 0xffffffff; f.ioseed = r.next() & 0xffffffff; f.schedseed = r.next() & 0xffffffff;
}
static void sched_cfg(Rng& r, SimCfg& f) {
  int k = r.below(10);
  if (k < 4) { f.mode = 0; f.mean = r.pick(vector<long>{7, 40, 200, 1000, 5000, 30000}); }
  else if (k < 6) { f.mode = 1; f.mean = r.range(1, 8); }
  else if (k < 7) f.mode = 2; else if (k < 8) { f.mode = 3; f.mean = r.pick(vector<long>{11, 100, 1000, 7000}); } else if (k < 9) f.mode = 4; else f.mode = 6;
  if (r.chance(.15)) f.stall = r.below(4);
}
static void io_cfg(Rng& r, SimCfg& f) { if (r.chance(.5)) f.shortread = r.pick(vector<int>{1, 2, 7, 30, 200}); if (r.chance(.4)) f.stdiobuf = r.pick(vector<int>{8, 16, 64, 256, 1024}); }
static int ncores(Rng& r, bool big = false) { if (big && r.chance(.04)) return r.range(20, 60); return r.pick(vector<int>{1, 2, 2, 3, 3, 4, 4, 5, 6, 8, 12}); }
static int small_fp(Rng& r, size_t len) { if (len > 100000) return len / r.range(2, 9) + 1; return r.pick(vector<int>{(int)(len / 2 + 1), (int)(len / 3 + 1), (int)(len / 5 + 3), (int)(len / 9 + 5), r.range(20, 200)}); }
static Op mk(int ph, int cl, const char* k, std::initializer_list<std::pair<const char*, long>> kv) { Op o; o.phase = ph; o.client = cl; o.kind = k; for (auto& p : kv) o.p[p.first] = p.second; return o; }

struct Mat { vector<vector<Val>> roots; };
// documents and queries of a case
static GenCfg shape(Rng& r, bool thorough, const string& prop) {
  GenCfg g; int k = r.below(100); if (prop == "C06" && r.chance(.2)) k = 95; if (prop == "C13" && r.chance(.1)) k = 95; 
  if (k < 55) { g.maxdoc = 500; g.depth = r.range(3, 5); } else if (k < 80) { g.maxdoc = 1500; g.mindoc = 300; g.depth = r.range(4, 6); } else if (k < 92) { g.maxdoc = 600; g.mindoc = 60; g.depth = r.range(6, 8); } else if (k < 97) { g.maxdoc = 9000; g.mindoc = 200; g.bigstr = r.pick(vector<int>{1200, 3000, 5000}); } else { g.maxdoc = thorough ? 20000 : 6000; g.mindoc = 2000; g.depth = 6; g.minarr = 12; }
  int z = r.below(100);
  if (z < 8) { g.zig = r.range(6, 40); g.maxdoc = 4000; g.mindoc = 20; g.maxsteps = r.range(3, 30); g.minarr = 0; }
  else if (z < 10) { g.wide = thorough ? r.range(1200, 4500) : r.range(600, 2500); g.maxdoc = 60000; g.maxsteps = 3; g.style = r.below(2); }
  else if (z < (prop == "C19" ? 45 : prop == "C10" ? 25 : 14)) { g.nest = r.range(2, 3); g.maxdoc = 2500; g.mindoc = 20; }
  if (g.wide && (prop == "C10" || prop == "C11" || prop == "C15")) g.wide = 0, g.maxdoc = 500;
  if (r.chance(.25)) g.vocab = r.range(1, 2); if (r.chance(.06)) g.longkey = r.pick(vector<int>{r.range(95, 104), r.range(20, 60), r.range(150, 400), g.bigstr ? 3000 : 120});
  if (prop == "C13" && r.chance(.015)) { g.wide = r.range(4000, 12000); g.maxdoc = 400000; g.mindoc = 20; g.maxsteps = 4; g.style = 0; g.zig = g.nest = 0; }
  if ((prop == "C20" || prop == "C04" || prop == "C01" || prop == "C05" || prop == "C12") && r.chance(prop == "C20" || prop == "C04" ? .006 : .0025)) { g.wide = r.chance(.2) ? r.range(150000, 180000) : r.range(70000, 120000); g.maxdoc = 2000000; g.mindoc = 20; g.maxsteps = 3; g.style = 0; g.zig = g.nest = 0; g.bigstr = 0; }
  if (r.chance(.08)) g.bignum = true;
  if (g.wide == 0 && r.chance(.1)) g.records = true;
  if (g.mindoc > g.maxdoc / 2) g.mindoc = g.maxdoc / 2;
  return g;
}
static string add_doc(Case& c, Rng& r, const GenCfg& g, vector<Val>& roots) { Gen G(r, g); string s = G.stream(roots); c.docs.push_back(s); return s; }
// a query with a non-empty answer on the document where possible
static string good_query(Rng& r, const GenCfg& g, const vector<Val>& roots, const string& doc, bool needfilter = false, bool needrange = false) {
  Gen G(r, g); string best; int want = needfilter ? 1 + (g.nest && r.chance(.7)) : 0;
  for (int t = 0; t < (want > 1 ? 200 : 60); t++) {
    Query q = G.query(roots); int f = 0; bool rg = false; for (auto& s : q) { f += s.t == 'f'; rg |= s.t == 'r'; }
    if ((f < want && (want == 1 || t < 120 || !f)) || (needrange && !rg)) continue;
    string s = query_str(q, r.chance(.7) ? &r : nullptr); vector<Res> res; expr_odd() = false; bool ok = reference(s, doc, res); if (expr_odd()) continue; if (best.empty()) best = s; if (ok && (!res.empty() || r.chance(.01))) return s;
    if (t > 20 && !best.empty() && r.chance(.2)) return best;
  }
  return best;
}
static void twin_cfg(Case& c) { Rng r(c.seed * 77 + 5); SimCfg o = c.cfg; mem_cfg(r, c.cfg); sched_cfg(r, c.cfg); io_cfg(r, c.cfg); if (c.cfg.fill == o.fill) c.cfg.fill = (o.fill + 1) % 6; c.cfg.faults.clear(); for (int i = 0; i < 3; i++) c.cfg.faults.push_back({F_CLOCK, 0, r.range(1, 20), r.range(1, 3)}); c.cfg.comma = !o.comma; }
static const char* BADQ[] = {"$.a[", "$.a[?(@.b]", "$$", "a.b", "$.a[?(]", "$..", "$.a[1:2:3]", "$.[", "", "$.a b", "$.a[-1]", "]", "$.a[?(@.b &)]"};

// where a fault strikes: a fraction of the calls of a run without faults (resolved by make_case), or a small number
static long when(Rng& r, long mx, bool after = false) { return r.chance(.7) ? -(long)(r.below(1000000) + 1 + (after ? 1000000 : 0) + (r.chance(.5) ? 2000000 : 0)) : r.range(1, mx); }
static Case gen_case0(const string& prop, uint64_t seed, bool th) {
  Rng r(seed ^ hash_str(prop)); Case c; c.prop = prop; c.seed = seed; mem_cfg(r, c.cfg); sched_cfg(r, c.cfg);
  vector<Val> R0; GenCfg g = shape(r, th, prop); auto& O = c.ops;
  auto P = [&](const Op& o) { O.push_back(o); };
  bool needf = prop == "C19" || (prop == "C10" && (g.nest || r.chance(.2))) || (g.nest && r.chance(.5)) || (string("C01 C02 C03 C04 C05 C07 C12 C13 C14 C16 C17 C18 C21 C22").find(prop) != string::npos && !g.wide && r.chance(prop == "C04" ? .3 : .15)), needr = prop == "C20"; if (prop == "C22") g.records = true; if (prop == "C23") { g.records = false; if (g.wide) g.wide = 0; g.maxdoc = std::min(g.maxdoc, 1500); g.mindoc = std::min(g.mindoc, 300); }
  if (r.chance(.06)) g.dup = true;   // a name twice in one object: both are delivered
  if (needf) { g.desc = r.chance(.3); g.minarr = std::max(g.minarr, 3); } if (needr) { g.desc = r.chance(.3); g.filters = r.chance(.3); g.minarr = 4; }
  string doc, q; 
  for (int t = 0; t < 20; t++) { c.docs.clear(); R0.clear(); doc = add_doc(c, r, g, R0); q = good_query(r, g, R0, doc, needf, needr); if (!q.empty()) break; }
  if ((prop == "C19" && r.chance(.006)) || ((prop == "C04" || prop == "C01" || prop == "C05" || prop == "C12") && r.chance(.0015))) {   // filters over elements that hold very many selected values
    c.docs.clear(); R0.clear(); doc.clear(); q.clear(); int outer = r.range(1, 3), big = r.below(outer), n = r.range(33000, 70000); string d = "{\"r\":["; bool last = r.chance(.5), inner = r.chance(.7);
    for (int i = 0; i < outer; i++) { int m = i == big ? n : r.below(4); d += i ? ",{" : "{"; string kk = i == big ? "\"k\":1" : r.chance(.5) ? "\"k\":1" : "\"k\":0"; if (!last) d += kk + ","; d += "\"s\":["; for (int j = 0; j < m; j++) { if (j) d += ","; if (!inner) d += std::to_string(j % 10); else { d += "{\"m\":" + std::to_string((int)r.chance(.9)) + ",\"b\":" + std::to_string(j % 100) + "}"; } } d += "]"; if (last) d += "," + kk; d += "}"; }
    doc = d + "]}"; c.docs.push_back(doc); parse_stream(doc, R0); q = string("$.r[?(@.k==") + (r.chance(.85) ? "1" : "0") + ")].s[" + (inner ? "?(@.m==1)].b" : "*]");
  }
  if (q.empty()) q = "$.a";
  c.queries.push_back(q);
  size_t L = doc.size();
  { double p = prop == "C10" ? .5 : prop == "C01" || prop == "C02" || prop == "C08" || prop == "C12" || prop == "C15" || prop == "C18" ? .2 : 0; if (p > 0 && r.chance(p)) c.cfg.racedir = r.pick(vector<int>{3, 15, 50, 100}); }
  bool lowfp = r.chance(.25); 
  auto any_run = [&](int ph, int cl, int s, int f, int o, int x, int y, int ct) {   // a whole-file run in a random mode
    int k = r.below(ct >= 0 ? 4 : 3); Op op = k == 0 ? mk(ph, cl, "serial", {}) : k == 1 ? mk(ph, cl, "par", {{"n", ncores(r)}}) : k == 2 ? mk(ph, cl, "opt", {{"n", ncores(r)}, {"t", -1}}) : mk(ph, cl, "opt", {{"n", ncores(r)}, {"t", ct}});
    op.p["s"] = s; op.p["f"] = f; op.p["o"] = o; op.p["x"] = x; if (y >= 0) op.p["y"] = y; return op; };
  auto train = [&] { int tf = 0; if (r.chance(.4)) { vector<Val> R1; GenCfg g2 = g; g2.maxdoc = r.pick(vector<int>{60, 150, 700}); g2.mindoc = 10; g2.wide = g2.zig = 0; tf = c.docs.size(); add_doc(c, r, g2, R1); } P(mk(0, 0, "train", {{"s", 0}, {"f", tf}, {"t", 0}})); };   // constraints from this document or another one
  if (prop == "C01") {
    if (lowfp) c.cfg.footprint = small_fp(r, L); bool many = L > 1200 && r.chance(.04);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}}));
    int k = r.range(1, 3); for (int i = 1; i <= k; i++) { P(mk(0, 0, "par", {{"s", 0}, {"f", 0}, {"n", many && i == 1 ? r.range(90, 140) : ncores(r, i == 1)}, {"o", i}, {"x", 2}, {"y", 0}})); }
  } else if (prop == "C02") {
    if (lowfp) c.cfg.footprint = small_fp(r, L);
    vector<Val> R1; if (r.chance(.6)) { GenCfg g2 = g; g2.maxdoc = r.pick(vector<int>{60, 150, 700}); g2.mindoc = 10; g2.wide = 0; g2.zig = 0; add_doc(c, r, g2, R1); } int tf = r.below(c.docs.size());
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}})); P(mk(0, 0, "train", {{"s", 0}, {"f", tf}, {"t", 0}, {"x", 1}}));
    int k = r.range(1, 3); for (int i = 1; i <= k; i++) P(mk(0, 0, "opt", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"t", 0}, {"o", i}, {"x", 2}, {"y", 0}}));
    if (c.docs.size() > 1 && r.chance(.5)) { P(mk(0, 0, "serial", {{"s", 0}, {"f", 1}, {"o", 8}})); P(mk(0, 0, "opt", {{"s", 0}, {"f", 1}, {"n", ncores(r)}, {"t", 0}, {"o", 9}, {"x", 2}, {"y", 8}})); }
    if (r.chance(.3)) { if (r.chance(.7)) P(mk(0, 0, "freect", {{"t", 0}})); P(mk(0, 0, r.chance(.5) ? "par" : "opt", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"t", -1}, {"o", 5}, {"x", 2}, {"y", 0}})); P(mk(0, 0, "train", {{"s", 0}, {"f", (long)r.below(c.docs.size())}, {"t", 1}, {"x", 1}})); P(mk(0, 0, "opt", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"t", 1}, {"o", 6}, {"x", 2}, {"y", 0}})); }   // other constraints afterwards
  } else if (prop == "C03") {
    io_cfg(r, c.cfg); P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}}));
    int k = r.range(1, 3); for (int i = 1; i <= k; i++) { P(mk(0, 0, "footprint", {{"v", small_fp(r, L)}})); if (i == 1 && r.chance(.3)) { train(); P(any_run(0, 0, 0, 0, i, 2, 0, 0)); } else { Op o = any_run(0, 0, 0, 0, i, 2, 0, -1); if (o.g("n") > 4) o.p["n"] = 4; P(o); } }
  } else if (prop == "C04") {
    io_cfg(r, c.cfg); if (lowfp) c.cfg.footprint = small_fp(r, L);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}, {"x", 1}}));
    int k = r.below(4); for (int i = 1; i <= k; i++) { c.queries.push_back(good_query(r, g, R0, doc)); if (c.queries.back().empty()) { c.queries.pop_back(); break; } P(mk(0, 0, "pp", {{"s", i}, {"q", i}})); P(mk(0, 0, "serial", {{"s", i}, {"f", 0}, {"o", i}, {"x", 1}})); }
  } else if (prop == "C05" || prop == "C19" || prop == "C20") {
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); bool ct = r.chance(.3); if (ct) train();
    int k = r.range(1, 2); vector<vector<Op>> seqs;
    for (int i = 0; i < k; i++) {
      vector<Op> sq; sq.push_back(mk(0, 0, "ctx", {{"c", i}})); bool many = L < 20000 && r.chance(.02); int pieces = many ? r.range(90, 160) : r.pick(vector<int>{1, 2, 2, 3, 4, 6, 9}); vector<int> cuts; for (int j = 1; j < pieces; j++) cuts.push_back(r.range(1, 999)); std::sort(cuts.begin(), cuts.end()); cuts.push_back(1000);
      int m = r.below(ct ? 3 : 2); int n = ncores(r); bool vary = r.chance(.3); for (int to : cuts) { if (vary) n = ncores(r); sq.push_back(mk(0, 0, "feed", {{"c", i}, {"s", 0}, {"f", 0}, {"to", to}, {"m", m}, {"n", std::min(n, many ? 3 : 6)}, {"t", m == 2 ? 0 : -1}, {"o", i}, {"x", 1}, {"empty", (long)r.chance(many ? .7 : .1)}})); if (r.chance(.03)) { Op e = sq.back(); e.p["empty"] = 1; sq.push_back(e); } }
      if (r.chance(.5)) sq.push_back(mk(0, 0, "ctxdel", {{"c", i}})), sq.push_back(mk(0, 0, "check", {{"o", i}}));
      seqs.push_back(sq);
    }
    // the contexts advance in a random interleaving
    vector<size_t> at(seqs.size(), 0); while (true) { vector<int> left; for (size_t i = 0; i < seqs.size(); i++) if (at[i] < seqs[i].size()) left.push_back(i); if (left.empty()) break; int i = r.pick(left); P(seqs[i][at[i]++]); }
    if (prop != "C05") { if (lowfp) P(mk(0, 0, "footprint", {{"v", small_fp(r, L)}})); Op o = any_run(0, 0, 0, 0, 5, 1, -1, ct ? 0 : -1); P(o); }
  } else if (prop == "C06") {
    io_cfg(r, c.cfg); g.tricky = true; c.cfg.footprint = small_fp(r, L); int k = r.range(1, 4);
    if (r.chance(.15)) { string& d = c.docs[0]; static const vector<string> odd = {"", "{}", "[]", "1", "\"x\"", "[\"\\\\\",\"\\\"\"]", " ", "{\"a\":\"\\\\\"}"}; d = r.pick(odd); }
    for (int i = 0; i < k; i++) { int w = r.below(4); int n = r.chance(.3) ? r.range(1, 40) : r.chance(.1) ? r.range(40, 320) : ncores(r); if (w == 0) P(mk(0, 0, "partmem", {{"f", 0}, {"n", n}})); else if (w == 1) P(mk(0, 0, "partfile", {{"f", 0}, {"n", n}})); else if (w == 2) P(mk(0, 0, "loadb", {{"f", 0}})); else P(mk(0, 0, "load", {{"f", 0}})); }
  } else if (prop == "C07") {
    io_cfg(r, c.cfg); if (r.chance(.5)) c.cfg.footprint = small_fp(r, L);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); int k = r.range(1, 3); bool ct = r.chance(.3); if (ct) train();
    for (int i = 0; i < k; i++) { int w = r.below(8); if (w == 0) { Op o = mk(0, 0, "internal", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"m", (long)r.below(5)}, {"o", i}, {"x", 3}, {"t", -1}}); P(o); } else if (w == 1) P(mk(0, 0, "loadb", {{"f", 0}})); else if (w == 2) P(mk(0, 0, "load", {{"f", 0}})); else if (w == 3) P(mk(0, 0, "partfile", {{"f", 0}, {"n", ncores(r)}})); else if (w == 4 && r.chance(.3)) P(any_run(0, 0, 0, 7, i, 3, -1, -1)); else P(any_run(0, 0, 0, 0, i, 3, -1, ct ? 0 : -1)); }
    int nf = r.range(1, 2); for (int i = 0; i < nf; i++) { int kind = r.pick(vector<int>{F_OPEN, F_READ, F_READ, F_READ, F_READP, F_SEEK}); c.cfg.faults.push_back({kind, 0, when(r, kind == F_OPEN ? 6 : kind == F_SEEK ? 12 : r.chance(.5) ? 6 : 60), kind == F_READP ? 1000000 : r.chance(.7) ? 1 : r.range(2, 4)}); }
    // after the faults: everything works again (only bounded faults)
    P(mk(2, 0, "heal", {})); P(mk(2, 0, "load", {{"f", 0}})); P(mk(2, 0, "pp", {{"s", 0}, {"q", 0}})); P(any_run(2, 0, 0, 0, 9, 1, -1, -1)); if (r.chance(.3)) P(any_run(2, 0, 0, 0, 10, 1, -1, -1));
  } else if (prop == "C08") {
    if (lowfp) c.cfg.footprint = small_fp(r, L);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}})); bool ct = r.chance(.3); if (ct) train();
    int k = r.range(1, 2); for (int i = 1; i <= k; i++) { Op o = any_run(0, 0, 0, 0, i, 2, 0, ct ? 0 : -1); if (o.kind == "serial") { o.kind = "par"; o.p["n"] = ncores(r); } if (r.chance(.03)) o.p["n"] = r.range(90, 130); P(o); }
    if (r.chance(.85)) { int nf = r.range(1, 3); for (int i = 0; i < nf; i++) c.cfg.faults.push_back({F_THREAD, 0, when(r, 12), r.chance(.3) ? 1000 : r.range(1, 3)}); }
  } else if (prop == "C09") {
    if (r.chance(.3)) c.cfg.footprint = small_fp(r, L);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "note", {})); bool ct = r.chance(.3); int tf = 0; if (r.chance(.5)) { ct = true; vector<Val> R1; GenCfg g2 = g; g2.maxdoc = r.pick(vector<int>{60, 150, 700}); g2.mindoc = 10; g2.wide = g2.zig = 0; add_doc(c, r, g2, R1); tf = 1; }
    if (ct) P(mk(0, 0, "train", {{"s", 0}, {"f", tf}, {"t", 0}})); if (tf && r.chance(.7)) P(mk(0, 0, "opt", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"t", 0}, {"o", 0}, {"x", 3}})); else P(any_run(0, 0, 0, 0, 0, 3, -1, ct ? 0 : -1)); if (r.chance(.3)) P(any_run(0, 0, 0, 0, 1, 3, -1, -1));
    if (r.chance(.25)) { P(mk(0, 0, "ctx", {{"c", 0}})); int m = r.below(2); for (int to : {r.range(1, 999), 1000}) P(mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"to", to}, {"m", m}, {"n", r.range(1, 3)}, {"o", 3}, {"x", 3}})); }
    c.cfg.faults.push_back({F_MALLOC, 0, -(long)(r.below(1000000) + 1 + (r.chance(.8) ? 1000000 : 0) + (r.chance(.6) ? 2000000 : 0)), 1}); if (r.chance(.3)) c.cfg.faults.back().count = 1000000;
  } else if (prop == "C10" || prop == "C11" || prop == "C15" || prop == "C14x") {
    if (prop == "C11") c.cfg.racefatal = true;
    GenCfg g2 = g; g2.maxdoc = 500; g2.mindoc = 20; g2.wide = 0; g2.zig = 0; int nd = r.range(1, 2), nc = r.range(2, 3); if (lowfp) c.cfg.footprint = 150 + r.below(300);
    vector<vector<Val>> RR = {R0}; for (int i = 1; i < nd; i++) { vector<Val> v; add_doc(c, r, g2, v); RR.push_back(v); string q2 = good_query(r, g2, v, c.docs[i]); c.queries.push_back(q2.empty() ? "$.a" : q2); }
    int nq = c.queries.size(); int slot = 0;
    // serial answers computed before anything runs concurrently: slot q*4+f
    for (int i = 0; i < nq; i++) { P(mk(0, 0, "pp", {{"s", i}, {"q", i}})); for (int f = 0; f < nd; f++) P(mk(0, 0, "serial", {{"s", i}, {"f", f}, {"o", i * 4 + f}})); }
    bool ct = r.chance(.5); if (ct) P(mk(0, 0, "train", {{"s", 0}, {"f", 0}, {"t", 0}, {"x", 1}}));
    slot = 16;
    for (int k = 1; k <= nc; k++) {
      int own = 4 + k; int qi = r.below(nq); bool ownpp = r.chance(.6); if (ownpp) P(mk(1, k, "pp", {{"s", own}, {"q", qi}}));
      int m = r.range(1, 2); for (int j = 0; j < m; j++) {
        int f = r.below(nd); int s = ownpp ? own : (int)r.below(nq); int qq = ownpp ? qi : s; int w = r.below(10); int cti = ct && s == 0 ? 0 : -1;
        if (w == 0) { c.queries.push_back(r.pick(vector<string>(BADQ, BADQ + sizeof BADQ / sizeof *BADQ))); P(mk(1, k, "pp", {{"s", 10 + k}, {"q", (long)c.queries.size() - 1}, {"bad", 2}})); P(mk(1, k, "freepp", {{"s", 10 + k}})); }
        else if (w == 1) { P(mk(1, k, "train", {{"s", s}, {"f", f}, {"t", k + 1}})); P(mk(1, k, "opt", {{"s", s}, {"f", f}, {"n", r.range(2, 4)}, {"t", k + 1}, {"o", slot}, {"x", 2}, {"y", qq * 4 + f}})); P(mk(1, k, "freect", {{"t", k + 1}})); slot++; }
        else if (w <= 3) { int cc = k; P(mk(1, k, "ctx", {{"c", cc}})); int m2 = r.below(cti >= 0 ? 3 : 2); for (int to : {r.range(1, 500), r.range(501, 999), 1000}) { Op o = mk(1, k, "feed", {{"c", cc}, {"s", s}, {"f", f}, {"to", to}, {"m", m2}, {"n", r.range(1, 3)}, {"t", m2 == 2 ? cti : -1}, {"o", slot}}); if (to == 1000) { o.p["x"] = 2; o.p["y"] = qq * 4 + f; } P(o); } P(mk(1, k, "ctxdel", {{"c", cc}})); P(mk(1, k, "free", {{"o", slot}})); slot++; }
        else { Op o = any_run(1, k, s, f, slot, 2, qq * 4 + f, cti); if (o.g("n") > 4) o.p["n"] = r.range(2, 4); P(o); if (r.chance(.3)) P(mk(1, k, "free", {{"o", slot}})); else if (r.chance(.5)) P(mk(1, k, "check", {{"o", slot}})); slot++; }
      }
      if (ownpp && r.chance(.6)) P(mk(1, k, "freepp", {{"s", own}}));
    }
    if (prop == "C15") { io_cfg(r, c.cfg); for (int i = r.below(3); i > 0; i--) c.cfg.faults.push_back({F_THREAD, (int)r.below(nc + 1), when(r, 6), r.range(1, 4)}); for (int i = r.below(3); i > 0; i--) c.cfg.faults.push_back({r.pick(vector<int>{F_OPEN, F_READ, F_READP, F_SEEK}), (int)r.range(1, nc), when(r, 10), r.range(1, 5)}); for (auto& o : O) if (o.phase == 1) { o.p.erase("x"); } P(mk(2, 0, "heal", {})); P(mk(2, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 60}, {"x", 2}, {"y", 0}})); P(mk(2, 0, "par", {{"s", 0}, {"f", 0}, {"n", 4}, {"o", 61}, {"x", 2}, {"y", 0}})); }
  } else if (prop == "C12") {
    c.twin = 1; if (lowfp) c.cfg.footprint = small_fp(r, L);
    // earlier activity, then the run that is compared
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); bool ct = r.chance(.4); if (ct) train();
    for (int i = r.range(1, 3); i > 0; i--) { Op o = any_run(0, 0, 0, 0, i, 2, 1, ct ? 0 : -1); o.p["y"] = 10; P(o); } O[O.size() > 0 ? O.size() - 1 : 0].p["o"] = 10;
    if (ct && r.chance(.3)) { P(mk(0, 0, "freect", {{"t", 0}})); P(mk(0, 0, r.chance(.5) ? "par" : "opt", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"t", -1}, {"o", 16}, {"x", 2}, {"y", 10}})); if (r.chance(.5)) { train(); P(any_run(0, 0, 0, 0, 17, 2, 10, 0)); } }   // life after released constraints
    if (r.chance(.4)) { P(mk(0, 0, "freepp", {{"s", 0}})); P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(any_run(0, 0, 0, 0, 11, 2, 10, -1)); }
    if (r.chance(.4)) { string q2 = good_query(r, g, R0, doc); if (!q2.empty()) { c.queries.push_back(q2); P(mk(0, 0, "pp", {{"s", 1}, {"q", 1}})); P(any_run(0, 0, 1, 0, 13, 0, -1, -1)); P(any_run(0, 0, 0, 0, 14, 2, 10, -1)); P(any_run(0, 0, 1, 0, 15, 2, 13, -1)); } }
    if (r.chance(.4)) { P(mk(0, 0, "partmem", {{"f", 0}, {"n", ncores(r)}})); P(mk(0, 0, "internal", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"m", (long)r.below(5)}, {"o", 12}, {"x", 2}, {"y", 10}, {"t", -1}})); }
    if (r.chance(.3)) {   // the file holds other content for a while
      GenCfg g2 = g; g2.maxdoc = 600; g2.mindoc = 4; g2.wide = g2.zig = 0; vector<Val> R1; if (r.chance(.5)) { Gen G(r, g2); c.docs.push_back(G.stream(R1)); } else { c.docs.push_back(doc.substr(0, r.below(L + 1))); }
      for (int i = r.range(1, 2); i > 0; i--) { Op o = any_run(0, 0, 0, 1, 17 + i, 0, -1, -1); o.p["as"] = 0; P(o); P(any_run(0, 0, 0, 0, 20 + i, 2, 10, -1)); }
    }
  } else if (prop == "C13") {
    c.cfg.memfatal = true; io_cfg(r, c.cfg); if (lowfp) c.cfg.footprint = small_fp(r, L); if (r.chance(.7)) c.cfg.layout = 0; 
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); bool ct = r.chance(.4); if (ct) train();
    int k = r.range(1, 3); for (int i = 0; i < k; i++) { int w = r.below(8); if (w == 0) P(mk(0, 0, "internal", {{"s", 0}, {"f", 0}, {"n", ncores(r)}, {"m", (long)r.below(5)}, {"o", i}, {"t", -1}})); else if (w == 1) P(mk(0, 0, r.chance(.5) ? "partmem" : "partfile", {{"f", 0}, {"n", r.range(1, 40)}})); else if (w == 2) { c.queries.push_back(r.pick(vector<string>(BADQ, BADQ + sizeof BADQ / sizeof *BADQ))); P(mk(0, 0, "pp", {{"s", 10 + i}, {"q", (long)c.queries.size() - 1}, {"bad", 2}})); P(mk(0, 0, "freepp", {{"s", 10 + i}})); } else if (w == 3) { P(mk(0, 0, "ctx", {{"c", i}})); int m = r.below(ct ? 3 : 2); for (int to : {r.range(1, 500), r.range(501, 999), 1000}) { P(mk(0, 0, "feed", {{"c", i}, {"s", 0}, {"f", 0}, {"to", to}, {"m", m}, {"n", r.range(1, 4)}, {"t", m == 2 ? 0 : -1}, {"o", i}})); if (r.chance(.1)) break; } P(mk(0, 0, "ctxdel", {{"c", i}})); } else P(any_run(0, 0, 0, 0, i, 0, -1, ct ? 0 : -1)); if (r.chance(.5)) P(mk(0, 0, "free", {{"o", i}})); }
    if (ct && r.chance(.5)) { P(mk(0, 0, "freect", {{"t", 0}})); if (r.chance(.6)) P(any_run(0, 0, 0, 0, 4, 0, -1, -1)); if (r.chance(.3)) { P(mk(0, 0, "train", {{"s", 0}, {"f", 0}, {"t", 0}})); P(any_run(0, 0, 0, 0, 5, 0, -1, 0)); } }   // life after released constraints
    if (r.chance(.5)) P(mk(0, 0, "freepp", {{"s", 0}}));
    for (int i = r.below(2); i > 0; i--) c.cfg.faults.push_back({r.pick(vector<int>{F_OPEN, F_READ, F_READP, F_SEEK, F_THREAD}), 0, when(r, 12), r.range(1, 3)});
  } else if (prop == "C14") {
    io_cfg(r, c.cfg); if (lowfp) c.cfg.footprint = small_fp(r, L); 
    auto body = [&](int o, int kind, int n, int m, int to) {
      if (kind == 0) P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", o}})); if (kind == 1) P(mk(0, 0, "par", {{"s", 0}, {"f", 0}, {"n", n}, {"o", o}})); 
      if (kind == 2) { P(mk(0, 0, "train", {{"s", 0}, {"f", 0}, {"t", 0}})); P(mk(0, 0, "opt", {{"s", 0}, {"f", 0}, {"n", n}, {"t", 0}, {"o", o}})); P(mk(0, 0, "freect", {{"t", 0}})); }
      if (kind == 3) P(mk(0, 0, "internal", {{"s", 0}, {"f", 0}, {"n", n}, {"m", m}, {"o", o}, {"t", -1}}));
      if (kind == 4) { if (m == 2) P(mk(0, 0, "train", {{"s", 0}, {"f", 0}, {"t", 0}})); P(mk(0, 0, "ctx", {{"c", 0}})); P(mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"to", to}, {"m", m}, {"n", n}, {"t", m == 2 ? 0 : -1}, {"o", o}})); P(mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"to", 1000}, {"m", m}, {"n", n}, {"t", m == 2 ? 0 : -1}, {"o", o}})); P(mk(0, 0, "ctxdel", {{"c", 0}})); if (m == 2) P(mk(0, 0, "freect", {{"t", 0}})); }
      if (kind == 5) P(mk(0, 0, "partfile", {{"f", 0}, {"n", n}})); if (kind == 6) P(mk(0, 0, "loadb", {{"f", 0}}));
      if (kind == 7) P(mk(0, 0, "serial", {{"s", 0}, {"f", 5}, {"o", o}}));
      P(mk(0, 0, "free", {{"o", o}})); };
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); 
    int kinds = r.range(1, 2); for (int i = 0; i < kinds; i++) { int kind = r.pick(vector<int>{0, 1, 1, 2, 3, 4, 4, 5, 6, 7}), n = ncores(r), m = r.below(kind == 3 ? 5 : 3), to = r.range(1, 999); P(mk(0, 0, "mark", {{"k", 0}})); for (int j = r.range(1, 2); j > 0; j--) { body(i, kind, n, m, to); P(mk(0, 0, "same", {{"k", 0}})); P(mk(0, 0, "files", {})); } }
    for (int i = r.below(3); i > 0; i--) c.cfg.faults.push_back({r.pick(vector<int>{F_OPEN, F_READ, F_READP, F_SEEK, F_THREAD}), 0, when(r, 12), r.range(1, 3)});
  } else if (prop == "C16") {
    io_cfg(r, c.cfg); if (lowfp) c.cfg.footprint = small_fp(r, L); int k = r.range(1, 3);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); bool ct = r.chance(.3); if (ct) P(mk(0, 0, "train", {{"s", 0}, {"f", (long)r.below(2)}, {"t", 0}}));   // learned from the whole or a torn file
    for (int i = 1; i <= k; i++) { size_t n = r.chance(.2) ? L - std::min<size_t>(L, r.range(1, 4)) : r.below(L + 1); c.docs.push_back(c.docs[0].substr(0, n)); for (int j = r.range(1, 2); j > 0; j--) { Op o = any_run(0, 0, 0, i, i * 2 + j, 5, -1, ct ? 0 : -1); o.p["whole"] = 0; P(o); } }
    P(any_run(0, 0, 0, 0, 1, 1, -1, -1));
  } else if (prop == "C17") {
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); bool ct = r.chance(.3); if (ct) train();
    for (int rep = 0; rep < 2; rep++) {
      P(mk(0, 0, "mark", {{"k", 0}}));
      int m = r.below(ct ? 3 : 2); P(mk(0, 0, "ctx", {{"c", 0}})); bool many = L < 20000 && r.chance(.02); int k = many ? r.range(90, 140) : r.range(0, 4); int to = 0; for (int i = 0; i < k; i++) { to = r.range(to + 1, std::min(999, to + (many ? 8 : 400))); Op o = mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"to", to}, {"m", m}, {"n", r.range(1, 4)}, {"t", m == 2 ? 0 : -1}, {"o", 0}, {"x", 1}, {"empty", (long)r.chance(many ? .7 : .2)}}); P(o); if (to >= 999) break; }
      P(mk(0, 0, "ctxdel", {{"c", 0}})); P(mk(0, 0, "check", {{"o", 0}})); P(mk(0, 0, "free", {{"o", 0}})); P(mk(0, 0, "same", {{"k", 0}}));
    }
    P(any_run(0, 0, 0, 0, 3, 1, -1, -1)); if (r.chance(.3)) c.cfg.faults.push_back({F_THREAD, 0, when(r, 6), r.range(1, 3)});
  } else if (prop == "C18") {
    vector<Val> R1; GenCfg g2 = g; g2.maxdoc = 500; g2.mindoc = 20; g2.wide = 0; g2.zig = 0; add_doc(c, r, g2, R1); c.queries.push_back(good_query(r, g2, R1, c.docs[1])); if (c.queries.back().empty()) c.queries.back() = "$.b"; if (r.chance(.6)) c.cfg.layout = r.range(1, 2);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "pp", {{"s", 1}, {"q", 1}})); bool ct = r.chance(.4); if (ct) train();
    vector<int> liveo; int n = r.range(2, 5); for (int i = 0; i < n; i++) { int s = r.below(2); if (r.chance(.25)) { P(mk(0, 0, "ctx", {{"c", i}})); int m = r.below(ct && s == 0 ? 3 : 2); long ff = r.below(2); for (int to : {r.range(1, 999), 1000}) P(mk(0, 0, "feed", {{"c", i}, {"s", s}, {"f", ff}, {"to", to}, {"m", m}, {"n", r.range(1, 3)}, {"t", m == 2 ? 0 : -1}, {"o", i}})); P(mk(0, 0, "ctxdel", {{"c", i}})); } else P(any_run(0, 0, s, r.below(2), i, 0, -1, ct && s == 0 ? 0 : -1)); liveo.push_back(i); if (r.chance(.25)) { P(mk(0, 0, "free", {{"o", liveo[r.below(liveo.size())]}})); } for (int o : liveo) if (r.chance(.5)) P(mk(0, 0, "check", {{"o", o}})); }
    if (r.chance(.7)) P(mk(0, 0, "freepp", {{"s", 0}})); if (r.chance(.5)) P(mk(0, 0, "freepp", {{"s", 1}})); if (ct) P(mk(0, 0, "freect", {{"t", 0}})); for (int o : liveo) P(mk(0, 0, "check", {{"o", o}}));
    for (int o : liveo) { P(mk(0, 0, "free", {{"o", o}})); for (int o2 : liveo) if (o2 > o) P(mk(0, 0, "check", {{"o", o2}})); }
  } else if (prop == "C21") {
    io_cfg(r, c.cfg); if (lowfp) c.cfg.footprint = small_fp(r, L); P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}})); bool ct = r.chance(.4); if (ct) train(); int k = r.range(1, 3); for (int i = 1; i <= k; i++) P(mk(0, 0, "internal", {{"s", 0}, {"f", 0}, {"n", ncores(r, i == 1)}, {"m", (long)r.below(5)}, {"t", ct && r.chance(.5) ? 0 : -1}, {"o", i}, {"x", 2}, {"y", 0}}));
  } else if (prop == "C22") {
    io_cfg(r, c.cfg); if (lowfp) c.cfg.footprint = small_fp(r, L); P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); bool ct = r.chance(.3); if (ct) train(); int k = r.range(1, 3); for (int i = 0; i < k; i++) P(any_run(0, 0, 0, 0, i, 1, -1, ct ? 0 : -1));
    if (r.chance(.4)) { P(mk(0, 0, "ctx", {{"c", 0}})); int m = r.below(ct ? 3 : 2); vector<int> cuts = {1000}; bool many = L < 20000 && r.chance(.05); for (int i = many ? r.range(100, 200) : r.range(1, 6); i > 0; i--) cuts.push_back(r.range(1, 999)); std::sort(cuts.begin(), cuts.end()); for (int to : cuts) P(mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"to", to}, {"m", m}, {"n", r.range(1, 4)}, {"t", m == 2 ? 0 : -1}, {"o", 7}, {"x", 1}})); }
  } else if (prop == "C23") {
    // the same record again and again, as a stream of records or as the elements of one array, cut at the same places in each
    bool arr = r.chance(.5); string rec = doc, q1 = q; if (token_starts(rec).empty()) { rec = "{\"k\":" + rec + "}"; q1 = "$.k" + q.substr(1); c.queries[0] = q1; }   // pieces begin at strings only
    const string sep = arr ? "," : "\n"; if (arr) c.queries[0] = "$[*]" + q1.substr(1);
    string pre; if (r.chance(.35)) { GenCfg g2 = g; g2.maxdoc = 300; g2.mindoc = 4; g2.wide = g2.zig = g2.nest = 0; vector<Val> R1; Gen G(r, g2); pre = G.stream(R1) + sep; }   // something else in front
    auto rep = [&](int n) { string d = (arr ? "[" : "") + pre; for (int i = 0; i < n; i++) d += (i ? sep : "") + rec; return arr ? d + "]" : d; };
    vector<int> t0 = token_starts(rec), off; for (int t : t0) if (t0.size() < 4 || r.chance(3.0 / t0.size())) off.push_back(t); if (off.size() > 4) off.resize(4);
    if (!pre.empty() && r.chance(.7)) { vector<Val> R1; string d = rep(2); GenCfg g2 = g; g2.wide = g2.zig = 0; if (parse_stream(d, R1)) { string q2 = good_query(r, g2, R1, d); if (!q2.empty()) c.queries[0] = q2; } }
    int m = r.below(3), n = r.range(1, 4), N = r.range(3, 9); N = std::max<int>(3, std::min<size_t>(N, 10000 / (5 * rec.size() + 1))); bool feed = !off.empty() && r.chance(.65);
    P(mk(0, 0, "pp", {{"s", 0}, {"q", 0}})); 
    if (feed) {
      c.docs[0] = rep(N); if (m == 2) P(mk(0, 0, "train", {{"s", 0}, {"f", 0}, {"t", 0}})); P(mk(0, 0, "ctx", {{"c", 0}}));
      for (int i = 0; i < N; i++) for (size_t j = 0; j < off.size(); j++) { long at = (arr ? 1 : 0) + (long)pre.size() + i * (long)(rec.size() + 1) + off[j]; P(mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"at", at}, {"m", m}, {"n", n}, {"t", m == 2 ? 0 : -1}, {"o", 0}, {"x", 1}})); if (i >= 1) { P(mk(0, 0, "level", {{"o", 0}, {"i", (long)j}, {"base", i == 1}})); } }
      P(mk(0, 0, "feed", {{"c", 0}, {"s", 0}, {"f", 0}, {"to", 1000}, {"m", m}, {"n", n}, {"t", m == 2 ? 0 : -1}, {"o", 0}, {"x", 1}})); P(mk(0, 0, "ctxdel", {{"c", 0}}));
    } else {
      c.docs[0] = rep(10); c.docs.push_back(rep(10 + 5 * N)); int fp = r.pick(vector<int>{30 + (int)rec.size() / 16, 60 + (int)rec.size() / 8, (int)rec.size() / 2 + 20, (int)rec.size() + 20}); c.cfg.footprint = fp;
      P(mk(0, 0, "mark", {{"k", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 0}, {"o", 0}, {"x", 1}})); P(mk(0, 0, "top", {{"o", 0}, {"i", 0}, {"base", 1}, {"addout", 1}, {"slack", 6 * (fp + (long)rec.size())}})); P(mk(0, 0, "free", {{"o", 0}}));
      P(mk(0, 0, "mark", {{"k", 0}})); P(mk(0, 0, "serial", {{"s", 0}, {"f", 1}, {"o", 1}, {"x", 1}})); P(mk(0, 0, "top", {{"o", 1}, {"i", 0}}));
    }
  }
  return c;
}
static Case gen_case(const string& prop, uint64_t seed, bool th) {
  Case c = gen_case0(prop, seed, th);
  size_t L = 0; for (auto& d : c.docs) L = std::max(L, d.size());
  { Rng r(seed ^ 0x6b3e05); if (r.chance(prop == "C12" || prop == "C04" ? .25 : .08)) c.cfg.comma = 1; }
  if (c.docs.size() > 1) { Rng r(seed ^ 0x3a91c7); bool one = true; for (auto& o : c.ops) if (o.client || o.phase) one = false; if (one && r.chance(.2)) for (auto& o : c.ops) if (o.p.count("f") && o.g("f") < (long)c.docs.size()) o.p["as"] = 0; }   // all documents under one name, one after the other
  if (L > 100000) { Rng r(seed ^ 0x51ed2701); if (r.chance(.6)) for (auto& o : c.ops) if (o.g("n") > 3) o.p["n"] = r.range(2, 3); }   // few threads on a very large document: counters inside one chunk get large
  return c;
}
