// Json and MessagePack (C20, C21): reference documents, an independent parser and decoder
#pragma once
#include <string.h>
#include <limits>
#include <assert.h>
#include <functional>
#include <memory>
#include <string>
#include <vector>
#include "json.hh"
#include "msgpack.hh"
#include "mc.h"
using lcdf::Json; using lcdf::Str; using lcdf::String; using lcdf::StringAccum;
using std::string;
struct M {                      // a document
  char t = 'n';                 // n b i d s a o
  bool b = false, any = false;  // any: a number outside 64 bits, its value is not compared
  __int128 i = 0; double d = 0; string s;
  std::vector<M> a; std::vector<std::pair<string, M>> o;
  static M I(__int128 x) { M m; m.t = 'i'; m.i = x; return m; }
  static M D(double x) { M m; m.t = 'd'; m.d = x; return m; }
  static M B(bool x) { M m; m.t = 'b'; m.b = x; return m; }
  static M S(const string &x) { M m; m.t = 's'; m.s = x; return m; }
  static M A() { M m; m.t = 'a'; return m; }
  static M O() { M m; m.t = 'o'; return m; }
  M *find(const string &k) { for (auto &p : o) if (p.first == k) return &p.second; return nullptr; }
  M &ins(const string &k) { if (M *m = find(k)) return *m; o.push_back({k, M()}); return o.back().second; }
  string str() const {
    switch (t) {
    case 'n': return "null"; case 'b': return b ? "true" : "false"; case 'd': return "d" + std::to_string(d); case 's': { string r = "'"; for (unsigned char c : s) if (c < 32 || c > 126) { char x[8]; snprintf(x, 8, "<%02x>", c); r += x; } else r += c; return r + "'"; }
    case 'i': { unsigned __int128 u = i < 0 ? -i : i; string r; do r = char('0' + int(u % 10)) + r; while (u /= 10); return (i < 0 ? "-" : "") + r; }
    case 'a': { string r = "["; for (auto &x : a) r += x.str() + " "; return r + "]"; }
    default: { string r = "{"; for (auto &x : o) r += x.first + ":" + x.second.str() + " "; return r + "}"; }
    }
  }
};
static inline string show(const string &s) { string r; for (unsigned char c : s) if (c < 32 || c > 126) { char x[8]; snprintf(x, 8, "<%02x>", c); r += x; } else r += c; return r; }
static inline string sstr(const String &s) { return string(s.data(), s.length()); }
static M from(const Json &j, int depth = 0) {  // what the public interface shows of a document
  M m;
  if (j.is_null()) return m;
  if (j.is_b()) return M::B(j.as_b());
  if (j.is_u()) return M::I(j.as_u());
  if (j.is_i()) return M::I(j.as_i());
  if (j.is_d()) return M::D(j.as_d());
  if (j.is_s()) return M::S(sstr(j.as_s()));
  if (j.is_a()) { m.t = 'a'; for (auto it = j.cabegin(); it != j.caend(); ++it) m.a.push_back(from(*it, depth + 1)); return m; }
  if (j.is_o()) { m.t = 'o'; for (auto it = j.cobegin(); it != j.coend(); ++it) m.o.push_back({sstr(it.key()), from(it.value(), depth + 1)}); return m; }
  mc::fail("a document of no type"); return m;
}
static bool printed = false;    // a printed number: 1.50 is 1.5, 1e1 is 10, twelve digits of a long one
static bool equal(const M &x, const M &y) {
  if (printed && (x.t == 'd' || y.t == 'd') && (x.t == 'i' || x.t == 'd') && (y.t == 'i' || y.t == 'd') && !x.any && !y.any) { double a = x.t == 'd' ? x.d : (double)x.i, b = y.t == 'd' ? y.d : (double)y.i; return a == b || (a - b < 0 ? b - a : a - b) <= 1e-11 * (a < 0 ? -a : a); }
  if (x.any || y.any) return (x.t == 'i' || x.t == 'd') && (y.t == 'i' || y.t == 'd');
  if (x.t != y.t) return false;
  switch (x.t) {
  case 'n': return true; case 'b': return x.b == y.b; case 'i': return x.i == y.i; case 'd': return x.d == y.d || (x.d != x.d && y.d != y.d); case 's': return x.s == y.s;
  case 'a': if (x.a.size() != y.a.size()) return false; for (size_t i = 0; i < x.a.size(); i++) if (!equal(x.a[i], y.a[i])) return false; return true;
  default: if (x.o.size() != y.o.size()) return false; for (size_t i = 0; i < x.o.size(); i++) if (x.o[i].first != y.o[i].first || !equal(x.o[i].second, y.o[i].second)) return false; return true;
  }
}
// deeper: every accessor agrees
static bool same(const char *what, const Json &j, const M &m) {
  M f = from(j);
  if (!equal(f, m)) { mc::fail("%s: document is %s instead of %s", what, f.str().c_str(), m.str().c_str()); return false; }
  if (m.t == 'a') { if (j.size() != (int)m.a.size() || j.empty() != m.a.empty()) { mc::fail("%s: size() is %d instead of %zu", what, j.size(), m.a.size()); return false; } for (size_t i = 0; i < m.a.size(); i++) if (!equal(from(j.get((int)i)), m.a[i])) { mc::fail("%s: get(%zu) is wrong", what, i); return false; } if (!j.get((int)m.a.size()).is_null()) { mc::fail("%s: get behind the end is not null", what); return false; } }
  if (m.t == 'o') {
    if (j.size() != (int)m.o.size() || j.empty() != m.o.empty()) { mc::fail("%s: size() is %d instead of %zu", what, j.size(), m.o.size()); return false; }
    for (auto &p : m.o) { Str k(p.first.data(), (int)p.first.size()); if (!equal(from(j.get(k)), p.second)) { mc::fail("%s: get(%s) is %s instead of %s", what, p.first.c_str(), from(j.get(k)).str().c_str(), p.second.str().c_str()); return false; } if (j.count(k) != 1) { mc::fail("%s: count(%s) is not 1", what, p.first.c_str()); return false; } }
    if (j.count("zz") || !j.get("zz").is_null()) { mc::fail("%s: an absent key is found", what); return false; }
  }
  if (m.t == 'a' || m.t == 'o') { size_t n = 0; for (auto it = j.begin(); it != j.end(); ++it, ++n) { if (n >= (m.t == 'a' ? m.a.size() : m.o.size())) { mc::fail("%s: iteration does not end", what); return false; } string k = m.t == 'a' ? std::to_string(n) : m.o[n].first; if (sstr(it.key()) != k || !equal(from(it.value()), m.t == 'a' ? m.a[n] : m.o[n].second)) { mc::fail("%s: iteration is wrong at %zu", what, n); return false; } } if (n != (m.t == 'a' ? m.a.size() : m.o.size())) { mc::fail("%s: iteration ends early", what); return false; } }
  return true;
}
// ---------------------------------------------------------------- reference JSON parser
struct Printed { Printed() { printed = true; } ~Printed() { printed = false; } };
struct Ref {
  enum R { OK, ERR, INC };
  const string &x; size_t p = 0; bool huge = false, either = false;   // huge: a number beyond every double, is not printed; either: a noncharacter, may be refused
  bool complete;                                        // at the end of the text a number ends
  int depth = 0;
  Ref(const string &x, bool complete) : x(x), complete(complete) {}
  void ws() { while (p < x.size() && strchr(" \n\r\t", x[p]) && x[p]) p++; }
  bool dig() { return p < x.size() && x[p] >= '0' && x[p] <= '9'; }
  R value(M &m) {
    ws(); if (p == x.size()) return INC;
    char c = x[p];
    if (c == '{') {
      m = M::O(); p++; ws(); if (p == x.size()) return INC; if (x[p] == '}') { p++; return OK; }
      for (;;) {
        ws(); if (p == x.size()) return INC; if (x[p] != '"') return ERR; string k; R r = strv(k); if (r != OK) return r;
        ws(); if (p == x.size()) return INC; if (x[p] != ':') return ERR; p++;
        M v; r = value(v); if (r != OK) return r; m.ins(k) = v;
        ws(); if (p == x.size()) return INC; if (x[p] == '}') { p++; return OK; } if (x[p] != ',') return ERR; p++;
      }
    }
    if (c == '[') {
      m = M::A(); p++; ws(); if (p == x.size()) return INC; if (x[p] == ']') { p++; return OK; }
      for (;;) {
        M v; R r = value(v); if (r != OK) return r; m.a.push_back(v);
        ws(); if (p == x.size()) return INC; if (x[p] == ']') { p++; return OK; } if (x[p] != ',') return ERR; p++;
      }
    }
    if (c == '"') { m = M::S(""); return strv(m.s); }
    for (int k = 0; k < 3; k++) { const char *w = k == 0 ? "null" : k == 1 ? "true" : "false"; if (c == *w) { while (*w && p < x.size() && x[p] == *w) w++, p++; if (!*w) { m = k ? M::B(k == 1) : M(); return OK; } return p == x.size() ? INC : ERR; } }
    if (c == '-' || (c >= '0' && c <= '9')) {
      size_t s = p; bool fl = false; R end = INC;
      if (c == '-') p++; if (p == x.size()) return complete ? ERR : INC; if (!dig()) return ERR;
      if (x[p] == '0') p++; else while (dig()) p++;
      if (p < x.size() && x[p] == '.') { fl = true; p++; if (p == x.size()) return complete ? ERR : INC; if (!dig()) return ERR; while (dig()) p++; }
      if (p < x.size() && (x[p] == 'e' || x[p] == 'E')) { fl = true; p++; if (p < x.size() && (x[p] == '+' || x[p] == '-')) p++; if (p == x.size()) return complete ? ERR : INC; if (!dig()) return ERR; while (dig()) p++; }
      if (p == x.size() && !complete) return end;
      string n = x.substr(s, p - s);
      if (fl) { m = M::D(strtod(n.c_str(), 0)); if (m.d - m.d != 0) m.any = huge = true; return OK; }
      m = M::I(0); bool neg = n[0] == '-'; for (size_t i = neg; i < n.size(); i++) { m.i = m.i * 10 + (n[i] - '0'); if (m.i > ((__int128)1 << 100)) m.i = (__int128)1 << 100; } if (neg) m.i = -m.i;
      if (m.i > (__int128)UINT64_MAX || m.i < (__int128)INT64_MIN) m.any = true;
      return OK;
    }
    return ERR;
  }
  R hex4(unsigned &u) { u = 0; for (int i = 0; i < 4; i++) { if (p == x.size()) return INC; char c = x[p]; int d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; if (d < 0) return ERR; u = u * 16 + d; p++; } return OK; }
  static void utf8(string &o, unsigned u) { if (u < 0x80) o += char(u); else if (u < 0x800) { o += char(0xC0 | u >> 6); o += char(0x80 | (u & 63)); } else if (u < 0x10000) { o += char(0xE0 | u >> 12); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); } else { o += char(0xF0 | u >> 18); o += char(0x80 | (u >> 12 & 63)); o += char(0x80 | (u >> 6 & 63)); o += char(0x80 | (u & 63)); } }
  R strv(string &o) {
    p++;
    for (;;) {
      if (p == x.size()) return INC;
      unsigned char c = x[p];
      if (c == '"') { p++; return OK; }
      if (c < 32) return ERR;
      if (c == '\\') {
        p++; if (p == x.size()) return INC; c = x[p++]; const char *f = "\"\\/bfnrt", *t = "\"\\/\b\f\n\r\t", *q = strchr(f, c);
        if (q && c) { o += t[q - f]; continue; }
        if (c != 'u') return ERR;
        unsigned u; R r = hex4(u); if (r != OK) return r;
        if (u >= 0xDC00 && u < 0xE000) return ERR;
        if (u >= 0xD800 && u < 0xDC00) { if (p == x.size()) return INC; if (x[p] != '\\') return ERR; p++; if (p == x.size()) return INC; if (x[p] != 'u') return ERR; p++; unsigned v; r = hex4(v); if (r != OK) return r; if (v < 0xDC00 || v >= 0xE000) return ERR; u = 0x10000 + (u - 0xD800) * 0x400 + (v - 0xDC00); }
        if (u == 0xFFFE || u == 0xFFFF) either = true;
        utf8(o, u); continue;
      }
      if (c < 0x80) { o += c; p++; continue; }
      int want = c >= 0xC2 && c < 0xE0 ? 2 : c >= 0xE0 && c < 0xF0 ? 3 : c >= 0xF0 && c < 0xF5 ? 4 : 0; if (!want) return ERR;
      for (int i = 0; i < want; i++) { if (p == x.size()) return INC; unsigned char d = x[p]; if (i && (d & 0xC0) != 0x80) return ERR; if (i == 1 && ((c == 0xE0 && d < 0xA0) || (c == 0xED && d >= 0xA0) || (c == 0xF0 && d < 0x90) || (c == 0xF4 && d >= 0x90))) return ERR; o += d; p++; }
    }
  }
};
// a piece of input in a heap block of exactly its size
struct Piece { char *p; size_t n; Piece(const char *s, size_t n) : p(new char[n ? n : 1]), n(n) { if (n) memcpy(p, s, n); } ~Piece() { delete[] p; } Piece(const Piece &) = delete; };
// every division of n into pieces (n small), or those into at most three, and into single bytes
static bool divisions(size_t n, size_t all, const std::function<bool(const std::vector<size_t> &)> &f) {
  if (n <= 1) return f({n});
  if (n <= all) { for (uint64_t m = 0; m < 1ull << (n - 1); m++) { std::vector<size_t> d; size_t last = 0; for (size_t i = 1; i < n; i++) if (m >> (i - 1) & 1) { d.push_back(i - last); last = i; } d.push_back(n - last); if (!f(d)) return false; } return true; }
  if (!f({n})) return false;
  for (size_t i = 1; i < n; i++) { if (n > 100 && i > (n > 600 ? 6 : 24) && i + (n > 600 ? 6 : 24) < n) continue; if (!f({i, n - i})) return false; if (n <= 24) for (size_t k = i + 1; k < n; k++) if (!f({i, k - i, n - k})) return false; }
  return f(std::vector<size_t>(n, 1));
}
void add_msgpack(mc::Suite &s, bool T);
