// Json (C20): parsing in any division, printing, and mutation of documents that share storage
#include "mtjson.h"
static const char *describe(const std::vector<size_t> &d) { static char b[200]; int n = 0; for (size_t x : d) if (n < 180) n += sprintf(b + n, "%s%zu", n ? "+" : "", x); return b; }
static bool check_text(const string &x, size_t all) {
  Ref whole(x, true); M m; Ref::R r = whole.value(m); size_t end = whole.p; bool ok = r == Ref::OK; if (ok) { whole.ws(); ok = whole.p == x.size(); }
  for (int k = 0; k < 2; k++) {   // in one go
    Piece p(x.data(), x.size()); Json j = Json(77); bool got = k ? j.assign_parse(String(p.p, (int)p.n)) : j.assign_parse(p.p, p.p + p.n);
    if (got != ok && !whole.either) { mc::fail("'%s' is %s", show(x).c_str(), got ? "accepted though it is not well-formed" : "refused"); return false; }
    if (got) {
      if (!same("parse", j, m)) return false;
      // print and parse again, in all styles
      Printed pr; for (int st = 0; st < 5 && !whole.huge; st++) {
        String s = st == 0 ? j.unparse() : j.unparse(st == 1 ? Json::indent_depth(9) : st == 2 ? Json::indent_depth(1).tab_width(2) : st == 3 ? Json::space_separator(true) : Json::newline_terminator(true).indent_depth(2));
        string t = sstr(s); Ref again(t, true); M n; if (again.value(n) != Ref::OK || (again.ws(), again.p != t.size()) || !equal(n, m)) { mc::fail("'%s' is printed as '%s'", show(x).c_str(), show(t).c_str()); return false; }
        Json j2; if (!j2.assign_parse(s)) { mc::fail("the printed text '%s' is refused", show(t).c_str()); return false; } if (!same("print and parse", j2, m)) return false;
      }
    } else if (!j.is_i() || j.as_i() != 77) { mc::fail("a failed parse changed the document"); return false; }
  }
  // as a stream
  Ref str(x, false); M ms; Ref::R rs = str.value(ms); size_t ends = str.p;
  Json::streaming_parser sp;
  return divisions(x.size(), all, [&](const std::vector<size_t> &d) {
    size_t at = 0, used = 0; sp.reset(); bool done = false;
    for (size_t n : d) {
      Piece p(x.data() + at, n); const char *e = sp.consume(p.p, p.p + n, String());
      if (e < p.p || e > p.p + n) { mc::fail("consume returns a position outside of its piece"); return false; }
      used += e - p.p; at += n; if (sp.done()) { done = true; break; }
      if (e != p.p + n) { mc::fail("'%s' in %s: consume stops in the middle of a piece", show(x).c_str(), describe(d)); return false; }
    }
    if (sp.success() && (rs != Ref::OK || used != ends)) { mc::fail("'%s' in %s: success at %zu", show(x).c_str(), describe(d), used); return false; }
    if (rs == Ref::INC && done && !str.either) { mc::fail("'%s' in %s: %s though the text is only the beginning of one", show(x).c_str(), describe(d), sp.success() ? "success" : "error"); return false; }
    if (!done) { Piece p("", 0); sp.consume(p.p, p.p, String(), true); if (sp.success() && r != Ref::OK) { mc::fail("'%s' in %s: success", show(x).c_str(), describe(d)); return false; } }
    if (r == Ref::OK && !sp.success() && !whole.either && !str.either) { mc::fail("'%s' in %s: no success", show(x).c_str(), describe(d)); return false; }
    if (sp.success()) { if (!same("stream", sp.result(), m)) return false; (void)end; }
    return true;
  });
}
struct Text : mc::SeqConfig {
  std::vector<string> tok; string pre, post; size_t all; string *x;
  Text(const string &nm, const std::vector<string> &tok, int d, size_t all, const string &pre = "", const string &post = "") : tok(tok), pre(pre), post(post), all(all) { name = nm; nletters = tok.size(); depth = d; dedupe = true; weight = 50; }
  void setup() override { x = new string(pre); }
  void apply(int l) override { *x += tok[l]; }
  void audit() override { long b = mc::live_blocks(); check_text(*x, all); if (!post.empty()) check_text(*x + post, all); if (mc::live_blocks() != b) mc::fail("'%s': %ld blocks left behind", show(*x).c_str(), mc::live_blocks() - b); }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override {
    Ref r(*x, false); M m; Ref::R v = r.value(m); uint64_t h = 1469598103934665603ull;
    if (v == Ref::ERR && r.p + 1 < x->size()) return 1;      // nothing behind an error matters
    if (v == Ref::OK && r.p + 2 < x->size()) { size_t p = r.p; Ref w(*x, true); w.p = p; w.ws(); if (w.p < x->size()) return 2; }
    for (unsigned char c : *x) h = (h ^ c) * 1099511628211ull; return h;
  }
  string letter_name(int l) override { return show(tok[l]); }
};
// strings of any characters, printed and read
struct Strings : mc::SeqConfig {
  std::vector<string> tok; string *x;
  Strings(const string &nm, const std::vector<string> &tok, int d) : tok(tok) { name = nm; nletters = tok.size(); depth = d; weight = 30; }
  void setup() override { x = new string(); }
  void apply(int l) override { *x += tok[l]; }
  void audit() override {
    Json j = Json::object("k", *x); j.set(String(x->data(), (int)x->size()), 1); j["l"] = Json::array(*x, 2);
    M m = M::O(); m.ins("k") = M::S(*x); m.ins(*x) = M::I(1); M a = M::A(); a.a = {M::S(*x), M::I(2)}; m.ins("l") = a;
    if (same("string", j, m)) check_text(sstr(j.unparse()), 0);
    string u = sstr(j.unparse()); Ref r(u, true); M n; if (r.value(n) != Ref::OK || !equal(n, m)) mc::fail("string '%s' is printed as %s", show(*x).c_str(), show(u).c_str());
    Json k; if (!k.assign_parse(j.unparse())) mc::fail("the printed text %s is refused", show(u).c_str()); else same("string, print and parse", k, m);
  }
};
struct Numbers : mc::SeqConfig {
  Numbers(const string &nm) { name = nm; nletters = 66; depth = 1; }
  int k; void setup() override { k = -1; } void apply(int l) override { k = l; }
  static void one(const Json &j, const M &m) { if (!same("number", j, m)) return; check_text(sstr(j.unparse()), 0); Json a = Json::array(j, j); M ma = M::A(); ma.a = {m, m}; if (same("numbers", a, ma)) { Json b = Json::parse(a.unparse()); same("numbers, print and parse", b, ma); } if (sstr(j.to_s()) != sstr(j.unparse())) mc::fail("to_s of a number differs from its text"); }
  void audit() override {
    if (k < 0) return;
    for (int d = -2; d <= 2; d++) for (int neg = 0; neg < 2; neg++) {
      __int128 v = (((__int128)1) << k) + d; if (neg) v = -v;
      if (v >= INT64_MIN && v <= INT64_MAX) { one(Json((long)v), M::I(v)); one(Json((long long)v), M::I(v)); if (v >= INT32_MIN && v <= INT32_MAX) one(Json((int)v), M::I(v)); }
      for (unsigned long u : {(unsigned long)v, (unsigned long)v + 1, (unsigned long)-v}) {      // signed against unsigned
        if (v < INT64_MIN || v > INT64_MAX) break;
        bool e = (__int128)u == v; Json a((long)v), b(u);
        if ((a == b) != e || (b == a) != e || (a != b) == e) mc::fail("%ld and %lu compare wrongly", (long)v, u);
      }
      if (v >= 0 && v <= (__int128)UINT64_MAX) { one(Json((unsigned long)v), M::I(v)); if (v <= UINT32_MAX) one(Json((unsigned)v), M::I(v)); }
    }
    for (double d : {0.5, 0.25, 1.5, -2.75, 1e30, 123456.789, 1e-7, 3.0625}) { double v = d * (1 << (k % 8)); Json j(v); string t = sstr(j.unparse()); Ref r(t, true); M m; if (r.value(m) != Ref::OK || r.p != t.size() || (m.t == 'd' ? m.d : (double)m.i) != v) mc::fail("%g is printed as %s", v, t.c_str()); Json b = Json::parse(j.unparse()); if (!b.is_n() || b.to_d() != v) mc::fail("%g printed and parsed is %g", v, b.to_d()); }
  }
};
struct Deep : mc::SeqConfig {
  Deep(const string &nm) { name = nm; nletters = 24; depth = 1; }
  int k; void setup() override { k = -1; } void apply(int l) override { k = l; }
  void audit() override {
    if (k < 0) return; int n = k < 12 ? 1 << k : 2040 + (k - 12) * 2;
    for (int w = 0; w < 2; w++) {
      string x; for (int i = 0; i < n; i++) x += w ? "{\"a\":" : "["; for (int i = 0; i < n; i++) x += w ? (i ? "}" : "1}") : "]";
      Json j; bool ok = j.assign_parse(String(x.data(), (int)x.size())); if (!ok && n < 2048) mc::fail("%d levels are refused", n);
      if (ok && sstr(j.unparse()) != x) mc::fail("%d levels are printed differently", n);
    }
  }
};
// ---------------------------------------------------------------- mutation
struct Mut : mc::SeqConfig {
  enum { N = 3 };
  struct S { Json v[N]; M m[N]; std::vector<char> h; }; S *s;
  int init;
  struct Op { string n; std::function<void(S &)> f; };
  static std::vector<Op> ops(int set);
  std::vector<Op> op;
  Mut(const string &nm, int set, int init, int d) : init(init), op(ops(set)) { name = nm; nletters = op.size(); depth = d; weight = 40; }
  static M doc(int k) { M m; if (k == 1) { m = M::O(); m.ins("a") = M::I(1); m.ins("b") = M::A(); m.ins("b").a = {M::I(1), M::S("x")}; } if (k == 2) { m = M::A(); m.a = {M::I(1), M::S("y"), doc(1)}; } if (k == 3) { m = M::O(); for (int i = 0; i < 8; i++) m.ins(string(1, 'a' + i)) = i == 0 ? doc(2) : M::I(i); } if (k == 4) { m = M::A(); for (int i = 0; i < 8; i++) m.a.push_back(i == 0 ? doc(1) : M::I(i)); } return m; }
  static Json make(const M &m) { switch (m.t) { case 'i': return Json((int)m.i); case 's': return Json(String(m.s)); case 'b': return Json(m.b); case 'a': { Json j = Json::make_array(); for (auto &x : m.a) j.push_back(make(x)); return j; } case 'o': { Json j = Json::make_object(); for (auto &x : m.o) j.set(String(x.first), make(x.second)); return j; } } return Json(); }
  void setup() override {
    s = new S();
    for (int i = 0; i < N; i++) { s->m[i] = doc(i == 0 ? init : i == 1 ? (init == 2 || init == 4 ? 1 : init ? 2 : 0) : 0); s->v[i] = make(s->m[i]); }
    if (init) { s->v[2] = s->v[0]; s->m[2] = s->m[0]; }
  }
  void apply(int l) override { op[l].f(*s); }
  void audit() override {
    for (int i = 0; i < N; i++) if (!same(i == 0 ? "variable 0" : i == 1 ? "variable 1" : "variable 2", s->v[i], s->m[i])) return;
    for (int i = 0; i < N; i++) if (s->m[i].t == 'a' || s->m[i].t == 'o') { string t = sstr(s->v[i].unparse()); Ref r(t, true); M n; if (r.value(n) != Ref::OK || !equal(n, s->m[i])) { mc::fail("variable %d is printed as %s", i, show(t).c_str()); return; } }
  }
  string letter_name(int l) override { return op[l].n; }
};
static M &m_obj(M &m) { if (m.t == 'a') { M o = M::O(); for (size_t i = 0; i < m.a.size(); i++) o.o.push_back({std::to_string(i), m.a[i]}); m = o; } else if (m.t != 'o') m = M::O(); return m; }
static M &m_at(M &m, int i) { if (m.t == 'o') return m.ins(std::to_string(i)); if (m.t != 'a') m = M::A(); if ((int)m.a.size() <= i) m.a.resize(i + 1); return m.a[i]; }
static M m_get(M &m, const string &k) { if (m.t == 'o') { M *p = m.find(k); return p ? *p : M(); } if (m.t == 'a' && k == "0" && !m.a.empty()) return m.a[0]; return M(); }
static M m_get(M &m, int i) { if (m.t == 'a') return i < (int)m.a.size() ? m.a[i] : M(); if (m.t == 'o') { M *p = m.find(std::to_string(i)); return p ? *p : M(); } return M(); }
static bool arr(const M &m) { return m.t == 'a' || m.t == 'n'; }
static bool obj(const M &m) { return m.t == 'o' || m.t == 'n'; }
std::vector<Mut::Op> Mut::ops(int set) {
  std::vector<Op> r; typedef Mut::S S;
  auto add = [&](const string &n, std::function<void(S &)> f) { r.push_back({n, f}); };
  // copies
  add("0=1", [](S &s) { s.v[0] = s.v[1]; s.m[0] = s.m[1]; });
  add("1=0", [](S &s) { s.v[1] = s.v[0]; s.m[1] = s.m[0]; });
  add("2=copy 0", [](S &s) { Json c(s.v[0]); s.v[2] = std::move(c); s.m[2] = s.m[0]; });
  add("swap 0 1", [](S &s) { swap(s.v[0], s.v[1]); std::swap(s.m[0], s.m[1]); });
  add("0.clear", [](S &s) { s.v[0].clear(); M n; if (s.m[0].t == 'a' || s.m[0].t == 'o') n.t = s.m[0].t; s.m[0] = n; });
  if (set == 0) {   // objects
    add("0.set a 7", [](S &s) { s.v[0].set("a", 7); m_obj(s.m[0]).ins("a") = M::I(7); });
    add("0.set n 1", [](S &s) { s.v[0].set("n", s.v[1]); m_obj(s.m[0]).ins("n") = M(s.m[1]); });
    add("0.set m 0", [](S &s) { M c = s.m[0]; s.v[0].set("m", s.v[0]); m_obj(s.m[0]).ins("m") = c; });
    add("0[p]=str", [](S &s) { s.v[0]["p"] = "str"; m_obj(s.m[0]).ins("p") = M::S("str"); });
    add("0[q]=0[a]", [](S &s) { s.v[0]["q"] = s.v[0]["a"]; M c = m_get(s.m[0], "a"); m_obj(s.m[0]).ins("q") = c; });
    add("0[r]=0.get(a)", [](S &s) { s.v[0][String("r")] = s.v[0].get("a"); M c = m_get(s.m[0], "a"); m_obj(s.m[0]).ins("r") = c; });
    add("0.set(t,0[a])", [](S &s) { s.v[0].set("t", s.v[0]["a"]); m_obj(s.m[0]); M c = m_get(s.m[0], "a"); s.m[0].ins("t") = c; });
    add("0[a][x]=2", [](S &s) { s.v[0]["a"]["x"] = 2; m_obj(m_obj(s.m[0]).ins("a")).ins("x") = M::I(2); });
    add("0[b][1]=3", [](S &s) { s.v[0]["b"][1] = 3; m_at(m_obj(s.m[0]).ins("b"), 1) = M::I(3); });
    add("0=0[a]", [](S &s) { s.v[0] = s.v[0]["a"]; M c = m_get(s.m[0], "a"); s.m[0] = c; });
    add("0=0.get(b)", [](S &s) { s.v[0] = s.v[0].get("b"); M c = m_get(s.m[0], "b"); s.m[0] = c; });
    add("1=0[b]", [](S &s) { s.v[1] = s.v[0]["b"]; s.m[1] = m_get(s.m[0], "b"); });
    add("1=string in 0", [](S &s) { if (s.v[0].get("p").is_s()) { s.v[1] = s.v[0].get("p").as_s(); s.m[1] = m_get(s.m[0], "p"); } });
    add("0.unset a", [](S &s) { s.v[0].unset("a"); if (s.m[0].t == 'o') for (size_t i = 0; i < s.m[0].o.size(); i++) if (s.m[0].o[i].first == "a") { s.m[0].o.erase(s.m[0].o.begin() + i); break; } });
    add("0.erase absent", [](S &s) { if (s.m[0].t == 'o') if (s.v[0].erase("zz") != 0) mc::fail("erase of an absent key reports one"); });
    add("0.erase b", [](S &s) { if (s.m[0].t != 'o') return; int n = 0; for (size_t i = 0; i < s.m[0].o.size(); i++) if (s.m[0].o[i].first == "b") { s.m[0].o.erase(s.m[0].o.begin() + i); n = 1; break; } if (s.v[0].erase("b") != n) mc::fail("erase does not report what it erased"); });
    add("0.erase first", [](S &s) { if (s.m[0].t != 'o' || s.m[0].o.empty()) return; auto it = s.v[0].erase(s.v[0].obegin()); s.m[0].o.erase(s.m[0].o.begin()); if (s.m[0].o.empty() ? it.live() : !it.live() || sstr(it.key()) != s.m[0].o[0].first) mc::fail("erase of the first element returns a wrong position"); });
    add("0.insert (d,3)", [](S &s) { if (s.m[0].t != 'o') return; bool had = s.m[0].find("d"); auto p = s.v[0].insert(std::make_pair(String("d"), Json(3))); if (!had) s.m[0].ins("d") = M::I(3); if (p.second == had || sstr(p.first.key()) != "d") mc::fail("insert reports wrongly"); });
    add("0.merge 1", [](S &s) { if (!obj(s.m[0]) || !obj(s.m[1])) return; s.v[0].merge(s.v[1]); if (s.m[1].t == 'o' && !(s.m[1].o.empty() && s.m[0].t == 'n')) { if (s.m[0].t == 'n') s.m[0] = M::O(); for (auto &x : s.m[1].o) s.m[0].ins(x.first) = x.second; } else if (s.m[0].t == 'n' && s.m[1].t == 'o') s.m[0] = from(s.v[0]).t == 'o' ? M::O() : M(); });
    add("0 values=5", [](S &s) { if (s.m[0].t != 'o') return; for (auto it = s.v[0].obegin(); it != s.v[0].oend(); ++it) it.value() = 5; for (auto &x : s.m[0].o) x.second = M::I(5); });
    add("0.get_insert b push", [](S &s) { if (!obj(s.m[0])) return; Json &j = s.v[0].get_insert("b"); M &m = m_obj(s.m[0]).ins("b"); if (arr(m)) { j.push_back(1); if (m.t == 'n') m = M::A(); m.a.push_back(M::I(1)); } });
    add("0.begin value=6", [](S &s) { if ((s.m[0].t != 'o' || s.m[0].o.empty())) return; auto it = s.v[0].begin(); it.value() = 6; s.m[0].o[0].second = M::I(6); });
  } else if (set == 1) {  // arrays
    add("0.push_back 1", [](S &s) { if (arr(s.m[0])) { s.v[0].push_back(1); s.m[0].t = 'a'; s.m[0].a.push_back(M::I(1)); } });
    add("0.push_back v1", [](S &s) { if (arr(s.m[0])) { s.v[0].push_back(s.v[1]); s.m[0].t = 'a'; s.m[0].a.push_back(s.m[1]); } });
    add("0.push_back v0", [](S &s) { if (arr(s.m[0])) { M c = s.m[0]; s.v[0].push_back(s.v[0]); s.m[0].t = 'a'; s.m[0].a.push_back(c); } });
    add("0.push_back 0[0]", [](S &s) { if (s.m[0].t == 'a' && !s.m[0].a.empty()) { s.v[0].push_back(s.v[0][0]); M c = s.m[0].a[0]; s.m[0].a.push_back(c); } });
    add("0[2]=9", [](S &s) { s.v[0][2] = 9; m_at(s.m[0], 2) = M::I(9); });
    add("0[9]=0[0]", [](S &s) { M c = m_get(s.m[0], 0); s.v[0][9] = s.v[0][0]; m_at(s.m[0], 9) = c; });
    add("0[0]=0[1]", [](S &s) { M c = m_get(s.m[0], 1); s.v[0][0] = s.v[0][1]; m_at(s.m[0], 0) = c; });
    add("0[0][k]=1", [](S &s) { s.v[0][0]["k"] = 1; m_obj(m_at(s.m[0], 0)).ins("k") = M::I(1); });
    add("0=0[0]", [](S &s) { M c = m_get(s.m[0], 0); s.v[0] = s.v[0][0]; s.m[0] = c; });
    add("0=0.get(2)", [](S &s) { M c = m_get(s.m[0], 2); s.v[0] = s.v[0].get(2); s.m[0] = c; });
    add("1=0[2]", [](S &s) { s.v[1] = s.v[0][2]; s.m[1] = m_get(s.m[0], 2); });
    add("0.insert 0 4", [](S &s) { if (s.m[0].t != 'a') return; auto it = s.v[0].insert(s.v[0].abegin(), Json(4)); s.m[0].a.insert(s.m[0].a.begin(), M::I(4)); if (it - s.v[0].abegin() != 0 || !it->is_i() || it->as_i() != 4) mc::fail("insert returns a wrong position"); });
    add("0.insert 1 0[1]", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.size() < 3) return; s.v[0].insert(s.v[0].abegin() + 1, s.v[0][2]); M c = s.m[0].a[2]; s.m[0].a.insert(s.m[0].a.begin() + 1, c); });
    add("0.insert end v1", [](S &s) { if (s.m[0].t != 'a') return; s.v[0].insert(s.v[0].aend(), s.v[1]); s.m[0].a.push_back(s.m[1]); });
    add("0.erase 0", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.empty()) return; auto it = s.v[0].erase(s.v[0].abegin()); s.m[0].a.erase(s.m[0].a.begin()); if (it - s.v[0].abegin() != 0) mc::fail("erase returns a wrong position"); });
    add("0.erase 1..3", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.size() < 3) return; s.v[0].erase(s.v[0].abegin() + 1, s.v[0].abegin() + 3); s.m[0].a.erase(s.m[0].a.begin() + 1, s.m[0].a.begin() + 3); });
    add("0.pop_back", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.empty()) return; s.v[0].pop_back(); s.m[0].a.pop_back(); });
    add("0.back=5", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.empty()) return; s.v[0].back() = 5; s.m[0].a.back() = M::I(5); });
    add("0.resize 1", [](S &s) { if (arr(s.m[0])) { s.v[0].resize(1); s.m[0].t = 'a'; s.m[0].a.resize(1); } });
    add("0.resize 9", [](S &s) { if (arr(s.m[0])) { s.v[0].resize(9); s.m[0].t = 'a'; s.m[0].a.resize(9); } });
    add("0.reserve 17", [](S &s) { if (arr(s.m[0])) { s.v[0].reserve(17); s.m[0].t = 'a'; } });
    add("0 values=5", [](S &s) { if (s.m[0].t != 'a') return; for (auto it = s.v[0].abegin(); it != s.v[0].aend(); ++it) *it = 5; for (auto &x : s.m[0].a) x = M::I(5); });
    add("0.array_data[0]=8", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.empty()) return; s.v[0].array_data()[0] = 8; if (s.v[0].end_array_data() - s.v[0].array_data() != (int)s.m[0].a.size()) mc::fail("array_data range is wrong"); s.m[0].a[0] = M::I(8); });
    add("0.begin value=6", [](S &s) { if (s.m[0].t != 'a' || s.m[0].a.empty()) return; auto it = s.v[0].begin(); it.value() = 6; s.m[0].a[0] = M::I(6); });
  } else {  // conversions and numbers
    auto isnum = [](const M &m) { return m.t == 'n' || m.t == 'i'; };
    add("0=3", [](S &s) { s.v[0] = 3; s.m[0] = M::I(3); });
    add("1=-2", [](S &s) { s.v[1] = -2L; s.m[1] = M::I(-2); });
    add("0=s", [](S &s) { s.v[0] = String("12"); s.m[0] = M::S("12"); });
    add("0+=1", [=](S &s) { if (isnum(s.m[0])) { s.v[0] += 1; s.m[0] = M::I((s.m[0].t == 'n' ? 0 : s.m[0].i) + 1); } });
    add("0+=v1", [=](S &s) { if (isnum(s.m[0]) && isnum(s.m[1])) { s.v[0] += s.v[1]; if (s.m[1].t == 'i') s.m[0] = M::I((s.m[0].t == 'n' ? 0 : s.m[0].i) + s.m[1].i); } });
    add("0-=v1", [=](S &s) { if (isnum(s.m[0]) && isnum(s.m[1])) { s.v[0] -= s.v[1]; if (s.m[1].t == 'i') s.m[0] = M::I((s.m[0].t == 'n' ? 0 : s.m[0].i) - s.m[1].i); } });
    add("++0", [=](S &s) { if (isnum(s.m[0])) { ++s.v[0]; s.m[0] = M::I((s.m[0].t == 'n' ? 0 : s.m[0].i) + 1); } });
    add("0=-1", [=](S &s) { if (isnum(s.m[1])) { s.v[0] = -s.v[1]; s.m[0] = M::I(s.m[1].t == 'n' ? 0 : -s.m[1].i); } });
    add("0[k]+=2", [=](S &s) { M g = m_get(s.m[0], "k"); if (isnum(g)) { s.v[0]["k"] += 2; m_obj(s.m[0]).ins("k") = M::I((g.t == 'n' ? 0 : g.i) + 2); } });
    add("0.set 1 8", [](S &s) { s.v[0].set("1", 8); m_obj(s.m[0]).ins("1") = M::I(8); });
    add("0[1]=v1", [](S &s) { s.v[0][1] = s.v[1]; M c = s.m[1]; m_at(s.m[0], 1) = c; });
    add("0[x][0]=1", [](S &s) { s.v[0]["x"][0] = 1; m_at(m_obj(s.m[0]).ins("x"), 0) = M::I(1); });
    add("0[0][x]=v0", [](S &s) { M c = s.m[0]; s.v[0][0]["x"] = Json(s.v[0]); m_obj(m_at(s.m[0], 0)).ins("x") = c; });
    add("1=array", [](S &s) { s.v[1] = Json::array(1, "a", Json()); M a = M::A(); a.a = {M::I(1), M::S("a"), M()}; s.m[1] = a; });
    add("1=object", [](S &s) { s.v[1] = Json::object("1", 2, "y", s.v[0]); M o = M::O(); o.ins("1") = M::I(2); o.ins("y") = s.m[0]; s.m[1] = o; });
    add("1=[]", [](S &s) { s.v[1] = Json::make_array(); s.m[1] = M::A(); });
    add("1={}", [](S &s) { s.v[1] = Json::make_object(); s.m[1] = M::O(); });
    add("conversions", [](S &s) { Json &j = s.v[0]; M &m = s.m[0]; bool b = m.t == 'n' ? false : m.t == 'i' ? m.i != 0 : m.t == 's' ? !m.s.empty() : m.t == 'a' ? !m.a.empty() : m.t == 'o' ? !m.o.empty() : m.b; if (j.to_b() != b) mc::fail("to_b of %s is %d", m.str().c_str(), j.to_b()); long i = m.t == 'i' ? (long)m.i : m.t == 's' ? atol(m.s.c_str()) : m.t == 'a' ? (long)m.a.size() : m.t == 'o' ? (long)m.o.size() : m.t == 'b' ? m.b : 0; if (j.to_i() != i || (m.t != 'i' && (long)j.to_u() != i) || j.to_d() != (double)i) mc::fail("to_i of %s is %ld", m.str().c_str(), (long)j.to_i()); string t = m.t == 'n' ? "" : m.t == 's' ? m.s : m.t == 'a' ? "[Array]" : m.t == 'o' ? "[Object]" : m.str(); if (sstr(j.to_s()) != t) mc::fail("to_s of %s is %s", m.str().c_str(), j.to_s().c_str()); int x = -9; if (j.to_i(x) != (m.t == 'i') || (m.t == 'i' ? x != (int)m.i : x != -9)) mc::fail("to_i(x) of %s is wrong", m.str().c_str()); if (j.truthy() != (m.t == 'n' ? false : m.t == 's' ? !m.s.empty() : m.t == 'i' ? m.i != 0 : m.t == 'b' ? m.b : true)) mc::fail("truthy of %s is wrong", m.str().c_str()); });
  }
  return r;
}
// objects of many keys: insertions, erasures by pattern, insertions again, with a copy taken in between
struct Big : mc::SeqConfig {
  Big(const string &nm, int n, int d) { name = nm; nletters = n; depth = d; weight = 10; }
  std::vector<int> *v; void setup() override { v = new std::vector<int>(); } void apply(int l) override { v->push_back(l); }
  void audit() override {
    Json j = Json::make_object(), c; M m = M::O(), mc_; int next = 0;
    for (size_t i = 0; i < v->size(); i++) {
      int l = (*v)[i];
      if (l < 5) for (int k = 0, n = l == 0 ? 1 : l == 1 ? 7 : l == 2 ? 9 : l == 3 ? 33 : 100; k < n; k++) { string key = "k" + std::to_string(next++); j.set(String(key), next); m.ins(key) = M::I(next); }
      else if (l < 9) { int st = l - 4; M o = M::O(); for (size_t k = 0; k < m.o.size(); k++) if (k % st == 0) { if (j.erase(Str(m.o[k].first)) != 1) { mc::fail("erase of a present key reports nothing"); return; } } else o.o.push_back(m.o[k]); m = o; }
      else if (l == 9) { c = j; mc_ = m; }
      else if (l == 10) { j = c; m = mc_; if (m.t != 'o') { m = M::O(); j = Json::make_object(); } }
      else { for (auto &p : m.o) p.second = M::I(-1); for (auto it = j.obegin(); it != j.oend(); ++it) it.value() = -1; }
      if (!same("object", j, m) || !same("copy", c, mc_)) return;
    }
  }
};
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s; bool T = tier == "thorough";
    s.rule = "every text, document and mutation sequence over the stated alphabets up to the stated length";
    if (prop == "C21") { add_msgpack(s, T); return s; }
    auto add = [&](mc::SeqConfig *c) { s.seq.push_back(c); };
    add(new Text("text, structure", {"{", "}", "[", "]", ",", ":", "\"a\"", "\"b\"", "1", " ", "null"}, T ? 8 : 7, 0));
    add(new Text("text, objects", {"}", "]", ",", "\"a\":", "\"b\":", "[", "{", "1", "\"a\""}, T ? 9 : 7, 0, "{"));
    add(new Text("text, literals", {"n", "u", "l", "t", "r", "e", "f", "a", "s", " "}, T ? 8 : 7, 12));
    add(new Text("text, numbers", {"-", "0", "1", "9", ".", "e", "E", "+", " "}, T ? 7 : 6, 12));
    add(new Text("text, numbers in an array", {"-", "0", "7", ".", "e", "+", ",", "]"}, T ? 7 : 6, T ? 12 : 10, "[", "]"));
    add(new Text("text, long numbers", {"-", "18446744073709551615", "18446744073709551616", "9223372036854775807", "9223372036854775808", "123456789012", ".", "0000000", "e", "1"}, T ? 4 : 3, 0));
    add(new Text("text, escapes", {"\\", "u", "0", "d", "8", "n", "\"", "a", "/"}, T ? 7 : 5, 9, "\""));
    add(new Text("text, unicode escapes", {"\\u", "0000", "0041", "1234", "07ff", "0800", "7fff", "d83d", "D83D", "de00", "DE00", "e000", "\"", "x"}, T ? 5 : 4, 0, "\"", "\""));
    add(new Text("text, utf-8", {"\xc2", "\x80", "\xe0", "\xa0", "\xed", "\x9f", "\xf0", "\x90", "\xf4", "\xbf", "\xff", "\"", "\x1f"}, T ? 5 : 4, 9, "\"", "\""));
    add(new Text("text, mixed", {"{\"a\":", "\"\\u00e9\xc3\xa9\"", "-1.5e1", "true", "]", "}", "[", ",", "\n"}, T ? 7 : 6, 0));
    add(new Strings("strings", {"a", "\"", "\\", "/", "\n", string(1, '\0'), "\x01", "\x7f", "\xc3\xa9", "\xe2\x80\xa8", "\xf0\x9f\x98\x80", "\xe1\x88\xb4"}, T ? 4 : 3));
    add(new Numbers("numbers")); add(new Deep("deep documents"));
    for (int set = 0; set < 3; set++) for (int init = 0; init < 5; init++) add(new Mut(string("mutations, ") + (set == 0 ? "objects" : set == 1 ? "arrays" : "conversions") + ", start " + std::to_string(init), set, init, T ? 4 : 3));
    add(new Big("big objects", 12, T ? 6 : 4));
    return s;
  });
}
