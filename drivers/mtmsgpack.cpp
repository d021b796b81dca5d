// MessagePack (C21): values survive encoding and decoding in any division into pieces
#include "mtjson.h"
static string hex(const string &x) { string r; for (unsigned char c : x) { char b[4]; snprintf(b, 4, "%02x ", c); r += b; if (r.size() > 150) { r += "..."; break; } } return r; }
// an independent decoder
struct Dec {
  enum R { OK, ERR, INC };
  const string &x; size_t p = 0;
  Dec(const string &x) : x(x) {}
  bool need(size_t n) { return x.size() - p >= n; }
  uint64_t be(int n) { uint64_t v = 0; for (int i = 0; i < n; i++) v = v << 8 | (unsigned char)x[p++]; return v; }
  R str(M &m, uint64_t n) { if (n > INT32_MAX) return ERR; if (!need(n)) return INC; m = M::S(x.substr(p, n)); p += n; return OK; }
  R arr(M &m, uint64_t n) { m = M::A(); if (n > INT32_MAX) return ERR; for (uint64_t i = 0; i < n; i++) { M v; R r = value(v); if (r != OK) return r; m.a.push_back(v); } return OK; }
  R map(M &m, uint64_t n) { m = M::O(); if (n > INT32_MAX) return ERR; for (uint64_t i = 0; i < n; i++) { M k, v; R r = value(k, true); if (r != OK) return r; string key = k.t == 's' ? k.s : k.str(); r = value(v); if (r != OK) return r; if (n > 5000) m.o.push_back({key, v}); else m.ins(key) = v; } return OK; }
  R value(M &m, bool key = false) {
    if (!need(1)) return INC;
    unsigned c = (unsigned char)x[p];
    if (key && !(c < 0x80 || c >= 0xe0 || (c >= 0xa0 && c < 0xc0) || (c >= 0xc4 && c <= 0xc6) || (c >= 0xcc && c <= 0xd3) || (c >= 0xd9 && c <= 0xdb))) { if (c >= 0xca && c <= 0xdf) { int hd = c == 0xca ? 5 : c == 0xcb ? 9 : c == 0xdc || c == 0xde ? 3 : 5; if (c >= 0xd4 && c <= 0xd8) return ERR; if (!need(hd)) return INC; } return ERR; }
    static const int hd[32] = {1, 0, 1, 1, 2, 3, 5, 0, 0, 0, 5, 9, 2, 3, 5, 9, 2, 3, 5, 9, 0, 0, 0, 0, 0, 2, 3, 5, 3, 5, 3, 5};
    if (c >= 0xc0 && c < 0xe0) { int h = hd[c - 0xc0]; if (!h) return ERR; if (!need(h)) return INC; }
    p++;
    if (c < 0x80) { m = M::I(c); return OK; }
    if (c >= 0xe0) { m = M::I((int)c - 256); return OK; }
    if (c < 0x90) return map(m, c & 15);
    if (c < 0xa0) return arr(m, c & 15);
    if (c < 0xc0) return str(m, c & 31);
    switch (c) {
    case 0xc0: m = M(); return OK; case 0xc2: m = M::B(false); return OK; case 0xc3: m = M::B(true); return OK;
    case 0xc4: case 0xd9: return str(m, be(1)); case 0xc5: case 0xda: return str(m, be(2)); case 0xc6: case 0xdb: return str(m, be(4));
    case 0xca: { uint32_t u = be(4); float f; memcpy(&f, &u, 4); m = M::D(f); return OK; }
    case 0xcb: { uint64_t u = be(8); double f; memcpy(&f, &u, 8); m = M::D(f); return OK; }
    case 0xcc: m = M::I(be(1)); return OK; case 0xcd: m = M::I(be(2)); return OK; case 0xce: m = M::I(be(4)); return OK; case 0xcf: m = M::I(be(8)); return OK;
    case 0xd0: m = M::I((int8_t)be(1)); return OK; case 0xd1: m = M::I((int16_t)be(2)); return OK; case 0xd2: m = M::I((int32_t)be(4)); return OK; case 0xd3: m = M::I((int64_t)be(8)); return OK;
    case 0xdc: return arr(m, be(2)); case 0xdd: return arr(m, be(4)); case 0xde: return map(m, be(2)); default: return map(m, be(4));
    }
  }
};
static const char *pieces(const std::vector<size_t> &d) { static char b[200]; int n = 0; for (size_t x : d) if (n < 180) n += sprintf(b + n, "%s%zu", n ? "+" : "", x); return b; }
// the decoder over x in every division, against the reference
static bool check_bytes(const string &x, size_t all) {
  Dec d(x); M m; Dec::R r = d.value(m); size_t end = d.p;
  msgpack::streaming_parser sp; Json before; M mbefore;
  bool ok = divisions(x.size(), all, [&](const std::vector<size_t> &dv) {
    sp.reset(); size_t at = 0, used = 0; if (!sp.empty() || sp.done()) { mc::fail("a reset decoder is not empty"); return false; }
    for (size_t n : dv) {
      Piece p(x.data() + at, n); String own(p.p, (int)n); const char *q = p.p, *e = q + n; bool sub = dv.size() == 1;
      const char *b = sub ? own.data() : p.p; q = b; e = b + n;
      while (q != e && !sp.done()) { const char *t = sub ? sp.consume(q, e, own) : sp.consume(q, e, String()); if (t < q || t > e) { mc::fail("consume returns a position outside of its piece"); return false; } if (t == q && !sp.done()) { mc::fail("%s in %s: the decoder makes no progress", hex(x).c_str(), pieces(dv)); return false; } used += t - q; q = t; }
      at += n; if (sp.done()) break;
    }
    if (sp.done() && sp.success() == sp.error()) { mc::fail("done but neither successful nor in error"); return false; }
    if (r == Dec::OK && (!sp.success() || used != end)) { mc::fail("%s in %s: %s at %zu instead of success at %zu", hex(x).c_str(), pieces(dv), sp.error() ? "error" : sp.success() ? "success" : "incomplete", used, end); return false; }
    if (r == Dec::INC && sp.done()) { mc::fail("%s in %s: %s though the value is not complete", hex(x).c_str(), pieces(dv), sp.success() ? "success" : "error"); return false; }
    if (r == Dec::ERR && sp.success()) { mc::fail("%s in %s: success though it is malformed", hex(x).c_str(), pieces(dv)); return false; }
    if (r == Dec::OK) { if (!same("decoded", sp.result(), m)) return false; if (!equal(from(before), mbefore)) { mc::fail("decoding changed an earlier result"); return false; } if (dv.size() <= 2) { before = sp.result(); mbefore = m; } }
    return true;
  });
  if (ok && r == Dec::OK) {
    Piece p(x.data(), x.size()); Json j = msgpack::parse(p.p, p.p + p.n); if (!same("msgpack::parse", j, m)) return false;
    String s(x.data(), (int)x.size()); Json k = msgpack::parse(s); if (!same("msgpack::parse of a String", k, m)) return false;
    for (int w = 0; w < 2; w++) { msgpack::parser pa = w ? msgpack::parser(s) : msgpack::parser(p.p); const char *b = pa.position(); Json l; pa >> l; if (!same("parser", l, m)) return false; if (pa.position() != b + end) { mc::fail("%s: parser stops at %zu", hex(x).c_str(), (size_t)(pa.position() - b)); return false; } }
    if (m.t != 'a' && m.t != 'o') { msgpack::parser pa(p.p); pa.skip_primitive(); if (pa.position() != p.p + end) { mc::fail("%s: skip_primitive stops at %ld", hex(x).c_str(), (long)(pa.position() - p.p)); return false; } }
    if (m.t == 's') { msgpack::parser pa(p.p), pb(s); Str a; String b, c; pa >> a; msgpack::parser pc(p.p); pc >> b; pb >> c; if (string(a.s, a.len) != m.s || sstr(b) != m.s || sstr(c) != m.s || pa.position() != p.p + end || pc.position() != p.p + end) { mc::fail("%s: parser reads another string", hex(x).c_str()); return false; } }
    if (m.t == 'b') { msgpack::parser pa(p.p); bool b = !m.b; pa >> b; if (b != m.b || pa.position() != p.p + end) { mc::fail("parser reads another bool"); return false; } }
    if (m.t == 'n') { msgpack::parser pa(p.p); if (!pa.try_read_null() || pa.position() != p.p + end) { mc::fail("parser does not read null"); return false; } } else { msgpack::parser pa(p.p); if (pa.try_read_null() || pa.position() != p.p) { mc::fail("parser reads a null that is not there"); return false; } }
    if (m.t == 'a') { msgpack::parser pa(p.p), pb(p.p); unsigned n; pa.read_array_header(n); pb.skip_array_size(); if (n != m.a.size() || pa.position() != pb.position()) { mc::fail("parser reads another array size"); return false; } }
    bool ai = m.t == 'a', as = m.t == 'a'; for (auto &v : m.a) { if (v.t != 'i' || v.i < INT64_MIN || v.i > INT64_MAX) ai = false; if (v.t != 's') as = false; }
    if (ai) { msgpack::parser pa(p.p); std::vector<long> v; pa >> v; bool eq = v.size() == m.a.size(); for (size_t i = 0; eq && i < v.size(); i++) eq = v[i] == (long)m.a[i].i; if (!eq || pa.position() != p.p + end) { mc::fail("%s: parser reads another vector", hex(x).c_str()); return false; } }
    if (as) { msgpack::parser pa(p.p); std::vector<String> v; pa >> v; bool eq = v.size() == m.a.size(); for (size_t i = 0; eq && i < v.size(); i++) eq = sstr(v[i]) == m.a[i].s; if (!eq || pa.position() != p.p + end) { mc::fail("%s: parser reads another vector", hex(x).c_str()); return false; } }
    if (m.t == 'i') {
      bool f = true;
      auto rd = [&](auto t) { typedef decltype(t) T; if (m.i < (__int128)std::numeric_limits<T>::min() || m.i > (__int128)std::numeric_limits<T>::max()) return; msgpack::parser pa(p.p); T v = 55; pa >> v; if ((__int128)v != m.i || pa.position() != p.p + end) f = false; msgpack::parser pb(p.p); v = 55; pb.read_int(v); if ((__int128)v != m.i) f = false; };
      rd(int()); rd(long()); rd((long long)0); rd(unsigned()); rd((unsigned long)0); rd((unsigned long long)0);
      if (!f) { mc::fail("%s: parser reads another integer than %s", hex(x).c_str(), m.str().c_str()); return false; }
    }
  }
  return ok;
}
static Json make(const M &m) { switch (m.t) { case 'i': return m.i > INT64_MAX ? Json((unsigned long)m.i) : Json((long)m.i); case 'd': return Json(m.d); case 's': return Json(String(m.s)); case 'b': return Json(m.b); case 'a': { Json j = Json::make_array(); for (auto &x : m.a) j.push_back(make(x)); return j; } case 'o': { Json j = Json::make_object(); for (auto &x : m.o) j.set(String(x.first), make(x.second)); return j; } } return Json(); }
// an encoding is a well-formed one of m and nothing else, and decodes to it
static bool check_encoding(const string &x, const M &m, size_t all) {
  Dec d(x); M n; if (d.value(n) != Dec::OK || d.p != x.size() || !equal(n, m)) { mc::fail("%s is encoded as %s", m.str().substr(0, 100).c_str(), hex(x).c_str()); return false; }
  if (!check_bytes(x, all)) return false;
  string y = x + "\xc1 behind"; return check_bytes(y, 0);
}
template <class X> static string enc(const X &x) { StringAccum sa; msgpack::unparse(sa, x); return string(sa.data(), sa.length()); }
static string encj(const Json &j) { string a = sstr(msgpack::unparse(j)), b = enc(j); if (a != b) mc::fail("two ways to encode differ"); return a; }
struct Doc : mc::SeqConfig {      // documents in prefix form
  enum { NL = 15 }; std::vector<int> *v; size_t all;
  Doc(const string &nm, int d, size_t all) : all(all) { name = nm; nletters = NL; depth = d; weight = 30; dedupe = true; }
  void setup() override { v = new std::vector<int>(); } void apply(int l) override { v->push_back(l); }
  static bool get(const std::vector<int> &v, size_t &p, M &m) {
    if (p == v.size()) return false; int l = v[p++];
    switch (l) {
    case 0: m = M(); return true; case 1: m = M::B(true); return true; case 2: m = M::I(5); return true; case 3: m = M::I(-300); return true; case 4: m = M::D(1.5); return true; case 5: m = M::S("x"); return true; case 6: m = M::S(string(40, 'y')); return true; case 7: m = M::I((__int128)1 << 40); return true;
    case 8: case 9: case 10: m = M::A(); for (int i = 0; i < l - 8; i++) { M e; if (!get(v, p, e)) return false; m.a.push_back(e); } return true;
    case 11: case 12: case 13: m = M::O(); for (int i = 0; i < l - 11; i++) { M e; if (!get(v, p, e)) return false; m.ins(i ? string(33, 'k') : "a") = e; } return true;
    default: { M e; if (!get(v, p, e)) return false; m = M::A(); for (int i = 0; i < 16; i++) m.a.push_back(e); return true; }
    }
  }
  void audit() override { M m; size_t p = 0; if (!get(*v, p, m) || p != v->size()) return; long b = mc::live_blocks(); { Json j = make(m); check_encoding(encj(j), m, all); if (!equal(from(j), m)) mc::fail("encoding changed the document"); } (void)b; }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override { M m; size_t p = 0; if (get(*v, p, m) && p < v->size()) return 1; uint64_t h = 7; for (int l : *v) h = h * 31 + l + 1; return h; }
};
struct Ints : mc::SeqConfig {
  int k; Ints(const string &nm) { name = nm; nletters = 65; depth = 1; } void setup() override { k = -1; } void apply(int l) override { k = l; }
  void audit() override {
    if (k < 0) return;
    for (int d = -3; d <= 3; d++) for (int neg = 0; neg < 2; neg++) {
      __int128 v = (((__int128)1) << k) + d; if (neg) v = -v; M m = M::I(v); bool ok = true;
      auto one = [&](const string &x) { ok = ok && check_encoding(x, m, 9); };
      if (v >= INT64_MIN && v <= INT64_MAX) { one(enc((long)v)); one(encj(Json((long)v))); StringAccum sa; msgpack::unparse_wide(sa, (int64_t)v); one(string(sa.data(), sa.length())); }
      if (v >= INT32_MIN && v <= INT32_MAX) { one(enc((int)v)); one(encj(Json((int)v))); }
      if (v >= 0 && v <= (__int128)UINT64_MAX) { one(enc((unsigned long)v)); one(encj(Json((unsigned long)v))); StringAccum sa; msgpack::unparse_wide(sa, (uint64_t)v); one(string(sa.data(), sa.length())); }
      if (v >= 0 && v <= UINT32_MAX) one(enc((unsigned)v));
      if (!ok) return;
    }
    for (double d : {0.5, -1.25, 1e300, 3e-9, 0.0}) { double v = d * (double)(1ull << (k & 63)); if (!check_encoding(enc(v), M::D(v), 9) || !check_encoding(encj(Json(v)), M::D(v), 9)) return; float f = (float)(d > 1e30 ? 7 : d) * (k + 1); if (!check_encoding(enc(f), M::D(f), 9)) return; }
  }
};
static const int LEN[] = {0, 1, 2, 14, 15, 16, 17, 30, 31, 32, 33, 127, 128, 254, 255, 256, 257, 4090, 4100, 32767, 32768, 65534, 65535, 65536, 65537};
struct Lens : mc::SeqConfig {
  int k; Lens(const string &nm) { name = nm; nletters = 3 * sizeof LEN / sizeof *LEN; depth = 1; weight = 60; } void setup() override { k = -1; } void apply(int l) override { k = l; }
  void audit() override {
    if (k < 0) return; int n = LEN[k / 3]; M m;
    if (k % 3 == 0) { string s; for (int i = 0; i < n; i++) s += char(i * 7 + i / 256); m = M::S(s); }
    if (k % 3 == 1) { m = M::A(); for (int i = 0; i < n; i++) m.a.push_back(M::I(i % 128)); }
    if (k % 3 == 2) { m = M::O(); for (int i = 0; i < n; i++) m.o.push_back({std::to_string(i), M::I(i % 3)}); }
    Json j = make(m); string x = encj(j);
    if (k % 3 == 0) { if (enc(String(m.s)) != x || enc(Str(m.s)) != x) { mc::fail("two ways to encode a string differ"); return; } }
    if (k % 3 == 1) { string h = enc(msgpack::array(n)); StringAccum sa; msgpack::unparser<StringAccum> u(sa); u.write_array_header(n); if (x.compare(0, h.size(), h) || string(sa.data(), sa.length()) != h) { mc::fail("array header of %d", n); return; } }
    if (k % 3 == 2) { string h = enc(msgpack::object(n)); if (x.compare(0, h.size(), h)) { mc::fail("object header of %d", n); return; } }
    Dec d(x); M r; if (d.value(r) != Dec::OK || d.p != x.size() || (n <= 5000 && !equal(r, m))) { mc::fail("length %d is encoded as %s", n, hex(x).c_str()); return; }
    // pieces: every cut near the beginning and the end, and even pieces
    std::vector<std::vector<size_t>> dv; size_t X = x.size(); dv.push_back({X}); bool big = n > 5000; size_t w = big ? 7 : 40;
    for (size_t i = 1; i < X && i < w; i++) dv.push_back({i, X - i});
    for (size_t i = 1; i < X && i < (big ? 3 : w); i++) dv.push_back({X - i, i});
    if (X <= 5000) dv.push_back(std::vector<size_t>(X, 1));
    for (size_t c : {3, 64, 4096}) if (X > c && X / c < 3000) { std::vector<size_t> v; for (size_t i = 0; i < X; i += c) v.push_back(std::min(c, X - i)); dv.push_back(v); }
    for (auto &v : dv) {
      msgpack::streaming_parser sp; size_t at = 0, used = 0;
      for (size_t c : v) { Piece p(x.data() + at, c); size_t u = 0; while (u < c && !sp.done()) { size_t t = sp.consume(p.p + u, c - u); if (!t && !sp.done()) { mc::fail("no progress"); return; } u += t; } used += u; at += c; if (sp.done() && at < X) { mc::fail("length %d in %s: done early", n, pieces(v)); return; } }
      if (!sp.success() || used != X) { mc::fail("length %d in %s: no success", n, pieces(v)); return; }
      const Json &g = sp.result(); bool eq;
      if (k % 3 == 0) eq = g.is_s() && sstr(g.as_s()) == m.s; else if (k % 3 == 1) { eq = g.is_a() && g.size() == n; for (int i = 0; eq && i < n; i += big ? 97 : 1) eq = g.get(i).to_i() == i % 128; if (eq && n) eq = g.get(n - 1).to_i() == (n - 1) % 128; } else { eq = g.is_o() && g.size() == n; for (int i = 0; eq && i < n; i += big ? 97 : 1) eq = g.get(std::to_string(i)).to_i() == i % 3; if (eq && n) eq = g.get(std::to_string(n - 1)).to_i() == (n - 1) % 3; }
      if (!eq) { mc::fail("length %d in %s: another value", n, pieces(v)); return; }
    }
    Piece p(x.data(), X); { msgpack::parser pa(p.p); Json l; pa >> l; if (pa.position() != p.p + X || sstr(msgpack::unparse(l)) != x) { mc::fail("length %d: parser reads another value", n); return; } }
    if (k % 3 == 0) { msgpack::parser pa(p.p), pb(p.p); Str s; pa >> s; pb.skip_primitive(); if (string(s.s, s.len) != m.s || pa.position() != p.p + X || pb.position() != p.p + X) mc::fail("length %d: parser reads another string", n); }
    if (k % 3 == 1) { msgpack::parser pa(p.p), pb(p.p), pc(p.p); unsigned z = 7; pa.read_array_header(z); pb.skip_array_size(); if ((int)z != n || pa.position() != pb.position()) { mc::fail("length %d: parser reads array size %u", n, z); return; } pb.skip_primitives(z); std::vector<int> v; pc >> v; if ((int)v.size() != n || pb.position() != p.p + X || pc.position() != p.p + X) mc::fail("length %d: parser reads another vector", n); }
  }
};
struct Bytes : mc::SeqConfig {
  std::vector<string> tok; string pre, *x; size_t all;
  Bytes(const string &nm, const std::vector<string> &tok, int d, size_t all, const string &pre = "") : tok(tok), pre(pre), all(all) { name = nm; nletters = tok.size(); depth = d; dedupe = true; weight = 50; }
  void setup() override { x = new string(pre); } void apply(int l) override { *x += tok[l]; }
  // arrays above this size are allocated before their elements arrive
  static bool huge(const string &x) { for (size_t i = 0; i < x.size(); i++) { Dec d(x); d.p = i + 1; if ((unsigned char)x[i] == 0xdd && i + 4 < x.size()) { uint64_t n = d.be(4); if (n > 300 && n <= INT32_MAX) return true; } if ((unsigned char)x[i] == 0xdc && i + 2 < x.size() && (i || x.size() > 3) && d.be(2) > 600) return true; } return false; }
  void audit() override { if (x->empty() || huge(*x)) return; long b = mc::live_blocks(); check_bytes(*x, all); if (mc::live_blocks() != b) mc::fail("%s: %ld blocks left behind", hex(*x).c_str(), mc::live_blocks() - b); }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override { Dec d(*x); M m; Dec::R r = d.value(m); if (r == Dec::ERR && d.p + 2 < x->size()) return 1; if (r == Dec::OK && d.p + 1 < x->size()) return 2; if (huge(*x)) return 3; uint64_t h = 1469598103934665603ull; for (unsigned char c : *x) h = (h ^ c) * 1099511628211ull; return h; }
  string letter_name(int l) override { return hex(tok[l]); }
};
// one decoder for one value after another; results kept from before stay as they were
struct Reuse : mc::SeqConfig {
  struct S { msgpack::streaming_parser sp; std::vector<Json> kept; std::vector<M> m; }; S *s; std::vector<M> docs;
  Reuse(const string &nm, int d) { name = nm; depth = d; weight = 30; M a = M::A(), o = M::O(), aa = M::A(), oo = M::O(), ao = M::A(), oa = M::O(), e = M::A(), eo = M::O(); a.a = {M::I(1), M::I(2)}; o.ins("a") = M::I(3); aa.a = {a, a, M::S("z")}; oo.ins("a") = o; oo.ins("b") = a; ao.a = {o, M::I(4)}; oa.ins("a") = a; oa.ins("b") = e; docs = {M::I(7), M::S("str"), a, o, aa, oo, ao, oa, e, eo}; nletters = docs.size() * 3; }
  void setup() override { s = new S(); }
  void apply(int l) override {
    const M &m = docs[l / 3]; string x = encj(make(m)); s->sp.reset(); int w = l % 3; size_t i = 0, step = w == 1 ? 1 : x.size();
    if (w == 2) { Piece p(x.data(), x.size() - 1); size_t u = 0; while (u < p.n) u += s->sp.consume(p.p + u, p.n - u); return; }   // left unfinished
    for (; i < x.size(); i += step) { Piece p(x.data() + i, step); size_t u = 0; while (u < step && !s->sp.done()) u += s->sp.consume(p.p + u, step - u); }
    if (!s->sp.success()) { mc::fail("no success"); return; }
    s->kept.push_back(s->sp.result()); s->m.push_back(m);
    if (m.t == 'o') s->kept.back().set("own", 1), s->m.back().ins("own") = M::I(1); else if (m.t == 'a') s->kept.back().push_back(9), s->m.back().a.push_back(M::I(9));
    s->kept.push_back(s->sp.result()); s->m.push_back(m);
  }
  void audit() override { for (size_t i = 0; i < s->kept.size(); i++) if (!same("an earlier result", s->kept[i], s->m[i])) return; }
};
void add_msgpack(mc::Suite &s, bool T) {
  auto add = [&](mc::SeqConfig *c) { s.seq.push_back(c); };
  auto b = [](std::initializer_list<int> l) { std::vector<string> r; for (int c : l) r.push_back(string(1, char(c))); return r; };
  add(new Lens("lengths")); add(new Ints("numbers"));
  add(new Doc("documents", T ? 5 : 4, T ? 9 : 7));
  add(new Bytes("bytes", b({0x00, 0x01, 0x7f, 0x80, 0x81, 0x82, 0x8f, 0x90, 0x91, 0x92, 0xa0, 0xa1, 0xa2, 0xbf, 0xc0, 0xc1, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xcb, 0xcc, 0xcd, 0xce, 0xcf, 0xd0, 0xd1, 0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xdb, 0xdc, 0xdd, 0xde, 0xdf, 0xe0, 0xff, 'a'}), T ? 4 : 3, 12));
  add(new Bytes("bytes, containers", b({0x00, 0x01, 0x02, 0x80, 0x81, 0x82, 0x90, 0x91, 0x92, 0xa0, 0xa1, 0xa2, 0xc0, 0xd9, 0xdc, 0xde}), T ? 5 : 4, 12));
  add(new Bytes("bytes, numbers", b({0x00, 0x01, 0x7f, 0x80, 0xff}), T ? 9 : 6, 9, string("\xcf")));
  add(new Bytes("bytes, 64-bit numbers", b({0x00, 0x7f, 0x80, 0xff}), 8, T ? 9 : 0, string("\xd3")));
  add(new Bytes("bytes, reals", b({0x00, 0x3f, 0x80, 0xff}), 8, T ? 9 : 0, string("\xcb")));
  for (int h : {0xc6, 0xdb, 0xdd, 0xdf, 0xce, 0xd2, 0xca}) add(new Bytes("bytes, 32-bit " + hex(string(1, char(h))), b({0x00, 0x01, 0x02, 0x7f, 0x80, 0xff}), T ? 7 : 5, 12, string(1, char(h))));
  for (int h : {0xc6, 0xdd, 0xdf}) add(new Bytes("bytes, 32-bit inside, " + hex(string(1, char(h))), b({0x00, 0x01, 0x02, 0x80, 0xff}), T ? 7 : 5, 12, string("\x92\x81\xa1") + "k" + char(h)));
  add(new Reuse("one decoder for many values", T ? 3 : 2));
}
