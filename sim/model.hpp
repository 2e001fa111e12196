// JSON documents, queries, a reference evaluator and generators. Independent of JPStream's code.
#pragma once
#include "rt.h"
#include <cmath>
#include <cstring>
#include <memory>
#include <set>
#include <string>
#include <vector>

// ---------------------------------------------------------------- documents
struct Val {
  char t = 'p';                    // 'o' 'a' 'p'
  std::string text;                // raw text of a primitive
  std::vector<std::string> keys;   // raw key text without quotes
  std::vector<Val> kids;
  int b = 0, e = 0;                // text span
};
struct JParser {
  const std::string& s; size_t i = 0; bool ok = true;
  JParser(const std::string& x) : s(x) {}
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r')) i++; }
  bool str(std::string& out) {     // raw, with quotes
    size_t b = i; if (i >= s.size() || s[i] != '"') return ok = false; i++;
    while (i < s.size() && s[i] != '"') { if (s[i] == '\\') i++; i++; }
    if (i >= s.size()) return ok = false; i++; out = s.substr(b, i - b); return true;
  }
  bool val(Val& v) {
    ws(); if (i >= s.size()) return ok = false;
    v.b = i;
    if (s[i] == '{') { v.t = 'o'; i++; ws(); if (i < s.size() && s[i] == '}') i++; else while (1) { ws(); std::string k; if (!str(k)) return false; ws(); if (i >= s.size() || s[i] != ':') return ok = false; i++; v.keys.push_back(k.substr(1, k.size() - 2)); v.kids.emplace_back(); if (!val(v.kids.back())) return false; ws(); if (i >= s.size()) return ok = false; if (s[i] == ',') { i++; continue; } if (s[i] == '}') { i++; break; } return ok = false; } }
    else if (s[i] == '[') { v.t = 'a'; i++; ws(); if (i < s.size() && s[i] == ']') i++; else while (1) { v.kids.emplace_back(); if (!val(v.kids.back())) return false; ws(); if (i >= s.size()) return ok = false; if (s[i] == ',') { i++; continue; } if (s[i] == ']') { i++; break; } return ok = false; } }
    else if (s[i] == '"') { v.t = 'p'; if (!str(v.text)) return false; }
    else { v.t = 'p'; size_t b = i; while (i < s.size() && !strchr(",}] \n\t\r{[:\"", s[i])) i++; if (i == b) return ok = false; v.text = s.substr(b, i - b); }
    v.e = i; return true;
  }
};
// a record stream: one or more top level values
inline bool parse_stream(const std::string& s, std::vector<Val>& out) {
  JParser p(s); p.ws(); while (p.i < s.size()) { out.emplace_back(); if (!p.val(out.back())) return false; p.ws(); } return !out.empty();
}
struct Style { int ws = 0; bool nl = false; std::string colon; };   // ws: percentage of gaps with blanks
inline void ser(Val& v, Rng& r, const Style& st, std::string& o) {
  auto gap = [&] { if (st.ws && (int)r.below(100) < st.ws) { static const char* A[] = {" ", "  ", "\t", " "}; static const char* B[] = {" ", "\n", "\n  ", "\t", "\r\n", "    "}; o += st.nl ? B[r.below(6)] : A[r.below(4)]; } };
  if (v.t == 'p') { v.b = o.size(); o += v.text; v.e = o.size(); return; }
  v.b = o.size(); o += v.t == 'o' ? '{' : '['; gap();
  for (size_t i = 0; i < v.kids.size(); i++) { if (i) { o += ','; gap(); } if (v.t == 'o') { o += '"' + v.keys[i] + '"'; gap(); o += ':'; gap(); } ser(v.kids[i], r, st, o); gap(); }
  o += v.t == 'o' ? '}' : ']'; v.e = o.size();
}
inline int count_nodes(const Val& v) { int n = 1; for (auto& k : v.kids) n += count_nodes(k); return n; }

// ---------------------------------------------------------------- queries
struct Expr { char op = 'v'; std::vector<std::string> path; std::string lit; std::vector<Expr> k; };  // v variable, n number, s string, ! & | = # < > l(<=) g(>=)
struct Step { char t; std::string key; long lo = 0, hi = 0; Expr e; };  // k key, * any, d descendant key, D descendant any, A [*], r range(hi<0: open), f filter
typedef std::vector<Step> Query;
// with a generator: only the parentheses that are needed (and some more), blanks, and both kinds of quotes
inline int expr_prec(char op) { return op == '|' ? 1 : op == '&' ? 2 : strchr("=#<>lg", op) ? 3 : op == '+' || op == '-' ? 4 : strchr("*/%", op) ? 5 : op == '!' ? 6 : 7; }
inline std::string expr_str(const Expr& e, Rng* r = nullptr, int up = 0) {
  std::string s; auto gap = [&] { if (r && r->chance(.15)) s += r->chance(.8) ? " " : "  "; }; int p = expr_prec(e.op);
  if (e.op == 'v') { s = "@"; for (auto& k : e.path) s += "." + k; return s; }
  if (e.op == 'n') return e.lit;
  if (e.op == 's') { const char* q = r && r->chance(.5) ? "\"" : "'"; return q + e.lit + q; }
  bool par = !r || p < up || r->chance(.1); if (par) s += "(", gap();
  if (e.op == '!') { s += "!"; gap(); s += expr_str(e.k[0], r, 6); }
  else { const char* o = e.op == '&' ? "&&" : e.op == '|' ? "||" : e.op == '=' ? "==" : e.op == '#' ? "!=" : e.op == 'l' ? "<=" : e.op == 'g' ? ">=" : nullptr; s += expr_str(e.k[0], r, p); gap(); if (o) s += o; else s += e.op; gap(); s += expr_str(e.k[1], r, p + 1); }
  if (par) gap(), s += ")"; return s;
}
inline std::string query_str(const Query& q, Rng* r = nullptr) {
  std::string s = "$";
  bool sp = r && r->chance(.05); auto gap = [&] { if (sp && r->chance(.3)) s += r->chance(.8) ? " " : "\t"; };
  auto spaced = [&](const std::string& x) { for (char c : x) { if (strchr(".[]:*", c) && (c != '.' || s.back() != '.')) gap(); s += c; if (strchr("[:", c)) gap(); } };
  for (auto& t : q) switch (t.t) {
    case 'k': spaced("." + t.key); break; case '*': spaced(".*"); break; case 'd': spaced(".." + t.key); break; case 'D': spaced("..*"); break; case 'A': spaced("[*]"); break;
    case 'r': if (t.hi == t.lo + 1 && t.key == "i") spaced("[" + std::to_string(t.lo) + "]"); else if (t.hi < 0) spaced("[" + std::to_string(t.lo) + ":]"); else if (t.key == "u") spaced("[:" + std::to_string(t.hi) + "]"); else spaced("[" + std::to_string(t.lo) + ":" + std::to_string(t.hi) + "]"); break;
    case 'f': s += "[?(" + expr_str(t.e, r) + ")]"; break;
  }
  return s;
}
struct QParser {
  std::string s; size_t i = 0; bool ok = true;
  QParser(const std::string& x) { char q = 0; for (char c : x) { if (q ? c == q : c == '"' || c == '\'') q = q ? 0 : c; if (q || (c != ' ' && c != '\t')) s += c; } }   // blanks count only inside of strings
  bool at(const char* p) { return s.compare(i, strlen(p), p) == 0; }
  bool eat(const char* p) { if (at(p)) { i += strlen(p); return true; } return false; }
  std::string ident() { size_t b = i; while (i < s.size() && (isalnum((unsigned char)s[i]) || s[i] == '_')) i++; if (b == i) ok = false; return s.substr(b, i - b); }
  long num() { size_t b = i; while (i < s.size() && isdigit((unsigned char)s[i])) i++; if (b == i) { ok = false; return 0; } return atol(s.substr(b, i - b).c_str()); }
  void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t')) i++; }
  bool op(const char* p) { ws(); return eat(p); }
  Expr atom() {
    Expr e; ws();
    if (eat("!")) { e.op = '!'; e.k.push_back(atom()); return e; }
    if (eat("(")) { e = bin(1); if (!op(")")) ok = false; return e; }
    if (eat("@")) { e.op = 'v'; while (eat(".")) e.path.push_back(ident()); return e; }
    if (at("'") || at("\"")) { char q = s[i++]; e.op = 's'; while (i < s.size() && s[i] != q) e.lit += s[i++]; i++; return e; }
    e.op = 'n'; size_t b = i; eat("-"); while (i < s.size() && (isdigit((unsigned char)s[i]) || s[i] == '.')) i++; e.lit = s.substr(b, i - b); if (b == i) ok = false; return e;
  }
  char binop() {
    static const char* T[] = {"&&", "||", "==", "!=", "<=", ">=", "<", ">", "+", "-", "*", "/", "%"}; static const char O[] = "&|=#lg<>+-*/%";
    ws(); for (int k = 0; k < 13; k++) if (at(T[k])) return O[k]; return 0;
  }
  Expr bin(int min) {
    Expr l = atom();
    while (ok) { char o = binop(); if (!o || expr_prec(o) < min) return l; i += strchr("&|=#lg", o) ? 2 : 1; Expr e; e.op = o; e.k.push_back(l); e.k.push_back(bin(expr_prec(o) + 1)); l = e; }
    return l;
  }
  bool parse(Query& q) {
    if (!eat("$")) return false;
    while (ok && i < s.size()) {
      Step t{};
      if (eat("..*")) t.t = 'D'; else if (eat("..")) { t.t = 'd'; t.key = ident(); } else if (eat(".*")) t.t = '*'; else if (eat(".")) { t.t = 'k'; t.key = ident(); }
      else if (eat("[*]")) t.t = 'A';
      else if (eat("[?(")) { t.t = 'f'; t.e = bin(1); ws(); if (!eat(")]")) ok = false; }
      else if (eat("[:")) { t.t = 'r'; t.key = "u"; t.lo = 0; t.hi = num(); if (!eat("]")) ok = false; }
      else if (eat("[")) { t.t = 'r'; t.lo = num(); if (eat("]")) { t.hi = t.lo + 1; t.key = "i"; } else if (eat(":")) { if (at("]")) t.hi = -1; else t.hi = num(); if (!eat("]")) ok = false; } else ok = false; }
      else return false;
      q.push_back(t);
    }
    return ok;
  }
};

// ---------------------------------------------------------------- reference evaluator
struct EV { char t = '0'; double n = 0; std::string s; };   // 0 null/missing, t true, f false, n number, s string, o object or array
inline bool truth(const EV& v) { return v.t == 't' || v.t == 's' || v.t == 'o' || (v.t == 'n' && v.n != 0); }
inline EV prim_val(const Val& v) {
  EV r; if (v.t != 'p') { r.t = 'o'; return r; }
  if (v.text == "true") r.t = 't'; else if (v.text == "false") r.t = 'f'; else if (v.text == "null") r.t = '0'; else if (v.text[0] == '"') { r.t = 's'; r.s = v.text.substr(1, v.text.size() - 2); } else { r.t = 'n'; r.n = strtod(v.text.c_str(), 0); }
  return r;
}
inline bool& expr_odd() { static bool o; return o; }   // set when objects or arrays are compared, or a condition looks into one of several members of the same name: no meaning here
inline EV eval_expr(const Val& node, const Expr& e) {
  EV r; auto B = [](bool b) { EV x; x.t = b ? 't' : 'f'; return x; };
  switch (e.op) {
    case 'v': { const Val* c = &node; for (auto& p : e.path) { const Val* n = nullptr; if (c->t == 'o') for (size_t i = 0; i < c->kids.size(); i++) if (c->keys[i] == p) { if (n && &p != &e.path.back()) expr_odd() = true; n = &c->kids[i]; } if (!n) return r; c = n; } return prim_val(*c); }
    case 'n': r.t = 'n'; r.n = strtod(e.lit.c_str(), 0); return r;
    case 's': r.t = 's'; r.s = e.lit; return r;
    case '!': return B(!truth(eval_expr(node, e.k[0])));
    case '&': return B(truth(eval_expr(node, e.k[0])) && truth(eval_expr(node, e.k[1])));
    case '|': return B(truth(eval_expr(node, e.k[0])) || truth(eval_expr(node, e.k[1])));
    default: {
      EV a = eval_expr(node, e.k[0]), b = eval_expr(node, e.k[1]);
      if (strchr("+-*/%", e.op)) {
        double x = a.t == 'n' ? a.n : 0, y = b.t == 'n' ? b.n : 0; r.t = 'n';
        if (e.op == '%') { long long d = (long long)y; if (d == 0) r.t = '0'; else r.n = d == -1 ? 0 : (long long)x % d; }
        else r.n = e.op == '+' ? x + y : e.op == '-' ? x - y : e.op == '*' ? x * y : x / y;
        return r;
      }
      if ((e.op == '=' || e.op == '#') && (a.t == 'o' || b.t == 'o') && strchr("oft", a.t) && strchr("oft", b.t)) expr_odd() = true;
      bool eq = a.t == b.t && (a.t == 'n' ? a.n == b.n : a.t == 's' ? a.s == b.s : true);
      if (e.op == '=') return B(eq); if (e.op == '#') return B(!eq);
      double x = a.t == 'n' ? a.n : 0, y = b.t == 'n' ? b.n : 0;
      if (a.t == 's' && b.t == 's') x = a.s.compare(b.s);   // strings are ordered among themselves, anything else without a number counts as 0
      return B(e.op == '<' ? x < y : e.op == '>' ? x > y : e.op == 'l' ? x <= y : x >= y);
    }
  }
}
struct Res { std::string text; int b, e, rel; };   // rel: offset at which the result may be delivered
struct Eval {
  const Query& q; const std::string& doc; std::vector<Res> out;
  Eval(const Query& q_, const std::string& d) : q(q_), doc(d) {}
  void emit(const Val& v, int outer) { out.push_back({doc.substr(v.b, v.e - v.b), v.b, v.e, outer > v.e ? outer : v.e}); }
  // states: positions in the query reached by the path to v; outer: end of the outermost filtered element around v (or 0)
  void walk(const Val& v, const std::set<int>& ps, int outer) {
    bool m = ps.count((int)q.size());
    if (v.t == 'p') { if (m) emit(v, outer); return; }
    for (size_t i = 0; i < v.kids.size(); i++) {
      const Val& c = v.kids[i]; bool ob = v.t == 'o'; std::set<int> ns; int out2 = outer;
      for (int p : ps) {
        if (p >= (int)q.size()) continue; const Step& t = q[p];
        switch (t.t) {
          case 'k': if (ob && v.keys[i] == t.key) ns.insert(p + 1); break;
          case '*': ns.insert(p + 1); break;
          case 'd': ns.insert(p); if (ob && v.keys[i] == t.key) ns.insert(p + 1); break;
          case 'D': ns.insert(p); ns.insert(p + 1); break;
          case 'A': if (!ob) ns.insert(p + 1); break;
          case 'r': if (!ob && (long)i >= t.lo && (t.hi < 0 || (long)i < t.hi)) ns.insert(p + 1); break;
          case 'f': if (!ob && c.t == 'o' && truth(eval_expr(c, t.e))) { ns.insert(p + 1); if (c.e > out2) out2 = c.e; } break;
        }
      }
      if (!ns.empty()) walk(c, ns, out2);
    }
    if (m) emit(v, outer);
  }
};
inline bool reference(const std::string& query, const std::string& doc, std::vector<Res>& out) {
  Query q; QParser qp(query); if (!qp.parse(q)) return false;
  std::vector<Val> vs; if (!parse_stream(doc, vs)) return false;
  Eval e(q, doc); for (auto& v : vs) e.walk(v, {0}, 0);
  out = e.out; return true;
}

// offsets at which a text may be cut: right before a string token that follows ',' '{' or '['
inline std::vector<int> token_starts(const std::string& s) {
  std::vector<int> r; bool in = false, esc = false; char last = 0;
  for (size_t i = 0; i < s.size(); i++) {
    char c = s[i];
    if (in) { if (esc) esc = false; else if (c == '\\') esc = true; else if (c == '"') in = false; continue; }
    if (c == '"' && (last == ',' || last == '{' || last == '[')) r.push_back(i);
    if (c == ' ' || c == '\t' || c == '\n' || c == '\r') continue;
    if (c == '"') in = true; last = c;
  }
  return r;
}
inline int cut_at(const std::string& s, const std::vector<int>& ts, long permille) {
  if (permille <= 0) return 0; if (permille >= 1000) return s.size();
  long x = (long)s.size() * permille / 1000; for (int t : ts) if (t >= x) return t; return s.size();
}

// ---------------------------------------------------------------- generators
struct GenCfg {
  int depth = 4; int maxdoc = 900, mindoc = 20; int style = -1; bool tricky = true; int bigstr = 0; bool records = false; bool filters = true, ranges = true, desc = true; int maxsteps = 5; bool utf = true; int minarr = 0; int zig = 0; int wide = 0; int vocab = 0; int longkey = 0; bool arith = true; int nest = 0; bool dup = false; bool bignum = false;
};
static const std::vector<std::string> KEYS = {"a", "b", "c", "d", "id", "name", "x1", "kk"};
struct Gen {
  // whether a path can name this key
  static bool named(const std::string& k) { if (k.empty() || isdigit((unsigned char)k[0])) return false; for (char c : k) if (!isalnum((unsigned char)c) && c != '_') return false; return true; }
  Rng& r; GenCfg g; std::vector<std::string> keys;
  Gen(Rng& r_, GenCfg g_) : r(r_), g(g_) {
    keys = KEYS; if (g.vocab == 1) keys = {"a", "aa", "aaa", "ab", "ba", "A", "a_b", "_a"}; if (g.vocab == 2) keys = {"id", "idx", "i", "ids", "Id", "other", "array", "x"};
    if (g.longkey) { std::string k; while ((int)k.size() < g.longkey) k += "abcdefghij"[(k.size() * 7 + g.longkey) % 10]; keys[7] = k; keys[6] = k.substr(0, k.size() - 1) + "z"; }
  }
  // nested to the given depth, with values before and after the nested one on every level
  Val zigzag(int d) {
    Val v = r.chance(.5) ? prim() : val(2);
    for (int i = 0; i < d; i++) {
      Val w; w.t = r.chance(.6) ? 'o' : 'a'; int pre = r.below(3), post = r.below(3); auto ks = sample(pre + post + 1);
      for (int j = 0; j < pre + post + 1; j++) { if (w.t == 'o') w.keys.push_back(ks[j % ks.size()]); w.kids.push_back(j == pre ? v : r.chance(.85) ? prim() : val(1)); }
      v = w;
    }
    return v;
  }
  // arrays of objects that hold arrays of objects, with members missing here and there
  Val nestv(int d) {
    Val a; a.t = 'a'; auto ks = sample(r.range(2, 4)); int n = r.range(2, d > 1 ? 4 : 5), at = r.below(ks.size()); double miss = r.chance(.3) ? 0 : .3;
    for (int i = 0; i < n; i++) {
      Val o; o.t = 'o'; for (size_t j = 0; j < ks.size(); j++) { if (r.chance(miss)) continue; if (g.dup && j && r.chance(.2)) { o.keys.push_back(ks[r.below(j)]); o.kids.push_back(prim()); } o.keys.push_back(ks[j]); if ((int)j == at && d > 1) o.kids.push_back(r.chance(.9) ? nestv(d - 1) : val(1)); else if (r.chance(.6)) { Val p; p.text = std::to_string(r.below(5)); o.kids.push_back(p); } else o.kids.push_back(r.chance(.8) ? prim() : val(1)); }
      a.kids.push_back(o);
    }
    return a;
  }
  // one long array (or object) of small values
  Val widev(int n) {
    Val w; w.t = n >= 10000 || r.chance(.75) ? 'a' : 'o'; int kind = n >= 20000 && r.chance(.6) ? 0 : r.below(4); auto ks = sample(2);
    for (int i = 0; i < n; i++) { Val e; if (kind == 0 || w.t == 'o') e.text = std::to_string(r.below(10)); else if (kind == 1) e.text = "\"" + std::to_string(r.below(100)) + "\""; else { e.t = kind == 2 ? 'o' : 'a'; for (int j = r.chance(.9); j >= 0; j--) { if (e.t == 'o') e.keys.push_back(ks[j % ks.size()]); Val x; x.text = std::to_string(r.below(10)); e.kids.push_back(x); } }
      if (w.t == 'o') w.keys.push_back("k" + std::to_string(i)); w.kids.push_back(e); }
    Val o; o.t = 'o'; o.keys = {key()}; o.kids = {w}; return r.chance(.5) ? o : w;
  }
  std::string str() {
    static const std::vector<std::string> plain = {"x", "yy", "hello", "a b", "", "0", "true", "some longer text here"};
    static const std::vector<std::string> tricky = {"k,", "q{", "w[", "e]", "r}", "q:", "\\\"", "t\\\\", "\\n", "{\\\"a\\\":1}", "[1,2", "\\u0041", "},{", "\\\\\\\"", "//", "'", "@", "*", ",\\\"", "#"};
    std::string s = r.pick(plain);
    if (g.tricky && r.chance(.3)) s += r.pick(tricky);
    if (r.chance(.3)) s += std::to_string(r.below(1000));
    if (g.utf && r.chance(.05)) s += "\xc3\xa9\xe2\x82\xac";
    if (g.bigstr && r.chance(.08)) { size_t n = r.below(g.bigstr); while (s.size() < n) s += r.chance(.1) ? std::string("\\\"") : std::string(1, "abcdefgh ,{}[]:"[r.below(15)]); }
    return s;
  }
  Val prim() {
    Val v; int k = r.below(8);
    if (g.bignum && r.chance(.35)) { static const long B[] = {2147483648, 4294967296, 3000000000, 1000000000000, 9007199254740000, 65536, 32768}; long b = B[r.below(7)] + (long)r.below(40) - 20; v.text = std::to_string(r.chance(.2) ? -b : b); return v; }
    if (k == 0) { static const char* L[] = {"true", "false", "null"}; v.text = L[r.below(3)]; }
    else if (k <= 3) v.text = std::to_string(r.below(r.chance(.3) ? 10 : 1000));
    else if (k == 4) { switch (r.below(6)) { case 0: v.text = "-" + std::to_string(r.below(500)); break; case 1: v.text = std::to_string(r.below(100)) + "." + std::to_string(r.below(100)); break; case 2: v.text = "1e" + std::to_string(r.below(9)); break; case 3: v.text = r.chance(.5) ? "-0.5" : std::to_string(2147483640 + (long)r.below(20)) + (r.chance(.3) ? "000" : ""); break; case 4: v.text = "2.5E+3"; break; default: v.text = "0"; } }
    else v.text = "\"" + str() + "\"";
    return v;
  }
  std::string key() { return r.pick(keys); }
  std::vector<std::string> sample(int n) { std::vector<std::string> k = keys; for (size_t i = 0; i + 1 < k.size(); i++) std::swap(k[i], k[i + r.below(k.size() - i)]); if ((int)k.size() > n) k.resize(n); return k; }
  Val val(int d) {
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    if (d <= 0 || x < 0.35) return prim();
    Val v; int n = r.pick(std::vector<int>{0, 1, 1, 2, 2, 3, 3, 4, 6});
    if (x < 0.62) { v.t = 'o'; for (auto& k : sample(n)) { v.keys.push_back(k); v.kids.push_back(val(d - 1)); }
      if (g.dup && v.keys.size() > 1 && r.chance(.5)) v.keys[r.below(v.keys.size())] = r.pick(v.keys);
      if (r.chance(.04)) { v.keys.push_back(g.bigstr && r.chance(.5) ? std::string(r.below(g.bigstr), 'k') : r.pick(std::vector<std::string>{"weird key, {[", "weird key, {[", "", "k\\\"q", "k:", "}", "]", "e\\\\", "\\\"", "1", "$", "a.b", "\\u0061", "@", "*", " "})); v.kids.push_back(val(d - 1)); } return v; }
    v.t = 'a';
    if (x < 0.70) { for (int i = 0; i < n + (int)r.below(4); i++) v.kids.push_back(prim()); return v; }
    if (x < 0.78) { for (int i = 0; i < n; i++) v.kids.push_back(val(d - 1)); return v; }
    if (x < 0.84) { int m = 1 + r.below(4); for (int i = 0; i < n; i++) { Val w; w.t = 'a'; int mm = r.chance(.5) ? m : (int)r.below(4); for (int j = 0; j < mm; j++) w.kids.push_back(r.chance(.7) ? prim() : val(d - 2)); v.kids.push_back(w); } return v; }
    auto ks = sample(2 + r.below(4)); n = n * (1 + r.below(3)); if (n < g.minarr) n = g.minarr;
    double keep = r.chance(.4) ? 1 : .8; double odd = r.chance(.2) ? .15 : 0;
    for (int i = 0; i < n; i++) { if (r.chance(odd)) { v.kids.push_back(prim()); continue; } Val w; w.t = 'o'; for (auto& k : ks) if (r.chance(keep)) { w.keys.push_back(k); w.kids.push_back(val(d - 2)); if (g.dup && r.chance(.25)) { w.keys.push_back(r.pick(w.keys)); w.kids.push_back(val(d - 2)); } } v.kids.push_back(w); }
    return v;
  }
  Style style() { Style s; int k = g.style >= 0 ? g.style : (int)r.below(4); if (k == 1) s.ws = 20; if (k == 2) { s.ws = 40; s.nl = true; } if (k == 3) { s.ws = 95; s.nl = true; } return s; }
  // a document (root value plus text)
  std::string doc(Val& root) {
    for (int tries = 0;; tries++) {
      int d = std::max(2, g.depth + (int)r.below(3) - 1);
      Val v = g.zig ? zigzag(r.range(g.zig / 2, g.zig)) : g.wide ? widev(r.range(g.wide / 2, g.wide)) : g.nest ? nestv(g.nest) : val(d); int t = 0; while (v.t == 'p' && t++ < 50) v = val(d);
      if (v.t == 'p') { Val w; w.t = 'a'; w.kids.push_back(v); v = w; }
      if (!g.zig && r.chance(.5)) { Val w; w.t = 'o'; w.keys.push_back(key()); w.kids.push_back(v); if (r.chance(.5)) { auto k = key(); if (k != w.keys[0]) { w.keys.push_back(k); w.kids.push_back(val(2)); } } v = w; }
      std::string o; if (r.chance(.1)) o = r.chance(.5) ? " " : "\n"; Style st = style(); ser(v, r, st, o); if (r.chance(.3)) o += r.chance(.5) ? "\n" : " \n";
      if (((int)o.size() < g.mindoc && tries < 400) || ((int)o.size() > g.maxdoc && tries < 3000)) continue;
      root = v; return o;
    }
  }
  std::string stream(std::vector<Val>& roots) {
    int n = 1; if (g.records) n = 2 + r.below(6);
    std::string o; GenCfg save = g; if (g.records) { g.maxdoc = std::max(60, g.maxdoc / n); g.mindoc = 4; g.depth = std::max(2, g.depth - 1); }
    bool prim = false;
    for (int i = 0; i < n; i++) {
      std::string sep = i ? r.pick(std::vector<std::string>{"\n", "\n", " ", "", "\n\n", "\r\n"}) : "";
      bool p = g.records && r.chance(.08) && (i < n - 1 || !roots.empty());
      if (p) { if (prim && sep.empty()) sep = " "; o += sep + r.pick(std::vector<std::string>{"12", "true", "\"x\"", "-3.5e2", "null", "\"a:{\""}); prim = true; continue; }
      Val v; std::string d = doc(v); if (prim && sep.empty()) sep = "\n"; prim = false; o += sep + d; roots.push_back(v); }
    g = save; return o;
  }
  Expr expr(const std::vector<const Val*>& sample, const std::vector<std::string>& names, int d) {
    Expr e; auto var = [&] { Expr x; x.op = 'v'; x.path = {r.pick(names)};
      if (r.chance(.25) && !sample.empty()) { const Val* s = r.pick(sample); for (size_t i = 0; i < s->kids.size(); i++) if (s->keys[i] == x.path[0] && s->kids[i].t == 'o' && !s->kids[i].keys.empty()) { const std::string& k = r.pick(s->kids[i].keys); if (named(k)) x.path.push_back(k); break; } }
      return x; };
    double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
    if (d == 0 || x < (g.bignum ? .15 : .4)) return var();
    if (x < .6) { e.op = '&'; e.k = {expr(sample, names, d - 1), expr(sample, names, d - 1)}; return e; }
    if (x < .7) { e.op = '|'; e.k = {expr(sample, names, d - 1), expr(sample, names, d - 1)}; return e; }
    if (x < .77) { e.op = '!'; e.k = {expr(sample, names, d - 1)}; return e; }
    auto num = [&](const std::string& l) { Expr z; z.op = 'n'; z.lit = l; return z; };
    if (g.arith && r.chance(g.bignum ? .7 : .35)) {
      int k = r.below(8);
      if (k == 0) { e.op = '%'; e.k = {var(), num(std::to_string(r.chance(.3) ? r.range(8, 1000) : r.range(2, 7)))}; return e; }   // true when there is a remainder
      if (k == 1) { auto bl = [&] { Expr b; do b = expr(sample, names, 1); while (!strchr("&|!=#<>lg", b.op)); return b; }; e.op = r.chance(.5) ? '=' : '#'; e.k = {bl(), bl()}; return e; }
      if (k == 2) { e.op = r.chance(.4) ? "=#"[r.below(2)] : "<>lg"[r.below(4)]; e.k = {var(), var()}; return e; }
      if (k == 3) { e.op = "=#<>lg"[r.below(6)]; e.k = {var(), num("0")}; return e; }
      if (k == 4) { e.op = "=#<>lg"[r.below(6)]; e.k = {var(), num(r.chance(.5) ? "-" + std::to_string(r.range(1, 300)) : std::to_string(r.below(100)) + ".5")}; return e; }
      // arithmetic against a number that is not zero
      Expr a; do { int n = r.range(1, 3); a = var(); for (int i = 0; i < n; i++) { Expr b; b.op = "+-*/%"[r.below(5)]; b.k = {a, r.chance(.25) && strchr("+-*", b.op) ? var() : num(std::to_string(r.range(1, r.chance(.5) ? 9 : 400)))}; if (r.chance(.2) && strchr("+-*", b.op)) std::swap(b.k[0], b.k[1]); a = b; } } while (0);
      long lit = r.range(1, 500); for (int t = 0; t < 3 && !sample.empty(); t++) { EV v = eval_expr(*r.pick(sample), a); if (v.t == 'n' && v.n == (long)v.n && (long)v.n != 0) lit = (long)v.n; }
      e.op = "=#<>lg"[r.below(6)]; e.k = {a, num(std::to_string(lit))}; if (r.chance(.2)) std::swap(e.k[0], e.k[1]); return e;
    }
    e.k = {var(), Expr()}; e.k[1].op = 'n'; long lit = 1 + r.below(999);
    std::string sl; bool hs = false;
    for (int t = 0; t < 3 && !sample.empty(); t++) { const Val* s = r.pick(sample); EV v = eval_expr(*s, e.k[0]); if (v.t == 'n' && v.n >= 1 && v.n == (long)v.n) lit = (long)v.n; if (v.t == 's' && !v.s.empty() && v.s.find_first_of("\\'\"%\n") == std::string::npos) { sl = v.s; hs = true; } }
    if (hs && r.chance(.5)) { e.k[1].op = 's'; e.k[1].lit = sl; e.op = r.chance(.7) ? "=#"[r.below(2)] : "<>lg"[r.below(4)]; if (r.chance(.1)) std::swap(e.k[0], e.k[1]); return e; }
    e.k[1].lit = std::to_string(lit); if (r.chance(.1)) e.k[1].lit += "." + std::to_string(r.below(100)); e.op = "=#<>lg"[r.below(6)]; return e;
  }
  // whether a member of this name lies inside another one
  static bool nests(const Val& v, const std::string& k, int in) { for (size_t i = 0; i < v.kids.size(); i++) { bool h = v.t == 'o' && v.keys[i] == k; if (h && in) return true; if (nests(v.kids[i], k, in || h)) return true; } return false; }
  // whether the rest of a query ends exactly at this path of names
  static bool ends_at(const Query& q, size_t i, const std::vector<std::string>& p, size_t j) {
    if (i == q.size()) return j == p.size(); if (j == p.size()) return false;
    switch (q[i].t) {
      case 'k': return q[i].key == p[j] && ends_at(q, i + 1, p, j + 1);
      case '*': return ends_at(q, i + 1, p, j + 1);
      case 'd': return ends_at(q, i, p, j + 1) || (q[i].key == p[j] && ends_at(q, i + 1, p, j + 1));
      case 'D': return ends_at(q, i, p, j + 1) || ends_at(q, i + 1, p, j + 1);
    }
    return false;
  }
  // a query that walks towards a random node of the document
  Query query(const std::vector<Val>& roots) {
    for (int tries = 0; tries < 200; tries++) {
      const Val* v = &r.pick(roots); Query q; bool hasd = false, hasf = false, hasr = false; int len = 1 + r.below(g.maxsteps);
      bool wantd = g.desc && r.chance(.35);
      while ((int)q.size() < len) {
        Step t{}; const Val* nx = nullptr;
        if (v->t == 'p' || v->kids.empty()) { if (r.chance(.9) || !q.empty()) break; t.t = r.chance(.5) ? 'A' : 'k'; t.key = key(); q.push_back(t); break; }
        int i = r.below(v->kids.size()); bool huge = v->kids.size() >= 20000; if (huge && r.chance(.5)) i = v->kids.size() - 1 - r.below(v->kids.size() / 30); nx = &v->kids[i];   // far behind in a very long array: counters of every width
        if (v->t == 'o') {
          std::string k = v->keys[i]; bool simple = named(k);
          double x = (r.next() >> 11) * (1.0 / 9007199254740992.0);
          if (!simple) { t.t = '*'; }
          else if (wantd && x < .4) { const Val* w = nx; for (int z = r.below(3); z > 0 && !w->kids.empty(); z--) { int j = r.below(w->kids.size()); if (w->t == 'o') { std::string kk = w->keys[j]; if (named(kk)) k = kk; else break; nx = &w->kids[j]; } w = &w->kids[j]; } t.t = 'd'; t.key = k; hasd = true; }
          else if (x < .85) { t.t = 'k'; t.key = k; }
          else if (wantd && x < .9) { t.t = 'D'; hasd = true; }
          else t.t = '*';
          if (r.chance(.04)) { t.t = 'k'; t.key = key(); }
        } else {
          double x = (r.next() >> 11) * (1.0 / 9007199254740992.0); long n = v->kids.size();
          if (x < (huge ? .15 : .45)) t.t = 'A';
          else if (x < .7 && g.ranges) { t.t = 'r'; hasr = true; if (r.chance(.35)) { t.lo = i; t.hi = i + 1; t.key = "i"; } else if (r.chance(.2)) { t.lo = r.below(i + 1); t.hi = -1; } else if (r.chance(.2)) { t.lo = 0; t.hi = i + 1 + r.below(3); t.key = "u"; } else { t.lo = r.below(i + 1); t.hi = i + 1 + r.below(std::max<long>(1, n - i) + 1); if (r.chance(.1)) t.hi += r.pick(std::vector<long>{100, 100, 200, 1000, 40000, 70000, 2000000000}); if (r.chance(.06)) t.hi = t.lo = r.chance(.5) ? 0 : t.lo; } }
          else if (x < .95 && g.filters && nx->t == 'o') {
            t.t = 'f'; hasf = true; std::vector<const Val*> smp; for (auto& c : v->kids) if (c.t == 'o') smp.push_back(&c);
            std::vector<std::string> names; for (auto& k : nx->keys) { if (named(k)) names.push_back(k); } if (r.chance(.2)) names.push_back(key()); if (names.empty()) names.push_back(key());
            t.e = expr(smp, names, r.chance(.06) ? 4 : 2);
          } else t.t = 'A';
        }
        q.push_back(t); v = nx;
      }
      if (q.empty()) continue;
      if (q.back().t == 'f') { Step t{}; t.t = 'k'; t.key = key(); if (v->t == 'o' && !v->keys.empty()) { auto k = r.pick(v->keys); if (named(k)) t.key = k; } q.push_back(t); }
      // the known findings: ranges and filters behind a descendant step whose name nests, a path that ends at a value its own condition looks at
      bool bad = false; int dpos = -1; (void)hasf; (void)hasr;
      for (size_t i = 0; i < q.size(); i++) {
        if (q[i].t == 'D' && dpos < 0) dpos = i; if (q[i].t == 'd') { if (dpos < 0) dpos = i; }
        if ((q[i].t == 'r' || q[i].t == 'f') && dpos >= 0) for (size_t j = dpos; j < i; j++) if (q[j].t == 'D') bad = true; else if (q[j].t == 'd') for (auto& root : roots) if (nests(root, q[j].key, 0)) bad = true;
        if (q[i].t != 'f') continue;
        std::function<void(const Expr&)> clash = [&](const Expr& e) { if (e.op == 'v' && ends_at(q, i + 1, e.path, 0)) bad = true; for (auto& k : e.k) clash(k); };
        clash(q[i].e);
      }
      int nd = 0, ns = 0; for (auto& t : q) { nd += t.t == 'd' || t.t == 'D'; ns += t.t == '*'; } if (nd > 2) bad = true;
      if (bad) continue;
      return q;
    }
    Query q; Step t{}; t.t = 'k'; t.key = key(); q.push_back(t); return q;
  }
};
