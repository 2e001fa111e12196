// A simulated case: documents, queries, client programs, faults and the schedule; text form for replay files.
#pragma once
#include "rt.h"
#include <cstdio>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
struct Op { int phase = 0, client = 0; std::string kind; std::map<std::string, long> p; 
  long g(const char* k, long d = 0) const { auto it = p.find(k); return it == p.end() ? d : it->second; } };
struct Case { std::string prop; uint64_t seed = 0; std::vector<std::string> docs, queries; std::vector<Op> ops; SimCfg cfg; int twin = 0; };
inline std::string esc(const std::string& s) { std::string o; char b[8]; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '%') { snprintf(b, sizeof b, "%%%02x", c); o += b; } else o += c; } return o; }
inline std::string unesc(const std::string& s) { std::string o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%') { o += (char)strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else o += s[i]; return o; }
inline std::string to_text(const Case& c) {
  std::ostringstream o; const SimCfg& f = c.cfg;
  o << "jpstream-sim-case 1\nprop " << c.prop << "\nseed " << c.seed << "\ntwin " << c.twin << "\n";
  o << "mem fill=" << f.fill << " layout=" << f.layout << " gap=" << f.gap << " paint=" << f.paint << " seed=" << f.memseed << " memfatal=" << f.memfatal << " racefatal=" << f.racefatal << "\n";
  o << "io short=" << f.shortread << " buf=" << f.stdiobuf << " seed=" << f.ioseed << " footprint=" << f.footprint << (f.comma ? " comma=1" : "") << "\n";
  o << "sched mode=" << f.mode << " mean=" << f.mean << " seed=" << f.schedseed << " stall=" << f.stall << " maxsteps=" << f.maxsteps << " racedir=" << f.racedir << "\n";
  for (auto& x : f.faults) o << "fault kind=" << x.kind << " client=" << x.client << " nth=" << x.nth << " count=" << x.count << "\n";
  for (auto& d : c.docs) o << "doc " << esc(d) << "\n";
  for (auto& q : c.queries) o << "query " << esc(q) << "\n";
  for (auto& x : c.ops) { o << "op " << x.phase << " " << x.client << " " << x.kind; for (auto& k : x.p) o << " " << k.first << "=" << k.second; o << "\n"; }
  for (auto& s : f.list) o << "switch " << s.task << " " << s.step << " " << s.to << "\n";
  return o.str();
}
inline std::map<std::string, long> kvs(std::istringstream& is) { std::map<std::string, long> m; std::string t; while (is >> t) { size_t e = t.find('='); if (e != std::string::npos) m[t.substr(0, e)] = (long)strtoull(t.c_str() + e + 1, 0, 10) * (1); if (e != std::string::npos && t[e + 1] == '-') m[t.substr(0, e)] = strtol(t.c_str() + e + 1, 0, 10); } return m; }
inline bool from_text(const std::string& text, Case& c) {
  std::istringstream in(text); std::string line; c = Case(); if (!std::getline(in, line) || line != "jpstream-sim-case 1") return false;
  while (std::getline(in, line)) {
    if (line.empty() || line[0] == '#') continue;
    size_t sp = line.find(' '); std::string k = line.substr(0, sp), rest = sp == std::string::npos ? "" : line.substr(sp + 1); std::istringstream is(rest);
    if (k == "prop") c.prop = rest; else if (k == "seed") c.seed = strtoull(rest.c_str(), 0, 10); else if (k == "twin") c.twin = atoi(rest.c_str());
    else if (k == "mem") { auto m = kvs(is); c.cfg.fill = m["fill"]; c.cfg.layout = m["layout"]; c.cfg.gap = m["gap"]; c.cfg.paint = m["paint"]; c.cfg.memseed = m["seed"]; c.cfg.memfatal = m["memfatal"]; c.cfg.racefatal = m["racefatal"]; }
    else if (k == "io") { auto m = kvs(is); c.cfg.shortread = m["short"]; c.cfg.stdiobuf = m["buf"]; c.cfg.ioseed = m["seed"]; c.cfg.footprint = m["footprint"]; c.cfg.comma = m["comma"]; }
    else if (k == "sched") { auto m = kvs(is); c.cfg.mode = m["mode"]; c.cfg.mean = m["mean"]; c.cfg.schedseed = m["seed"]; c.cfg.stall = m["stall"]; c.cfg.maxsteps = m["maxsteps"]; c.cfg.racedir = m["racedir"]; }
    else if (k == "fault") { auto m = kvs(is); c.cfg.faults.push_back({(int)m["kind"], (int)m["client"], m["nth"], m["count"]}); }
    else if (k == "doc") c.docs.push_back(unesc(rest)); else if (k == "query") c.queries.push_back(unesc(rest));
    else if (k == "op") { Op o; is >> o.phase >> o.client >> o.kind; o.p = kvs(is); c.ops.push_back(o); }
    else if (k == "switch") { Switch s; is >> s.task >> s.step >> s.to; c.cfg.list.push_back(s); }
  }
  return true;
}
