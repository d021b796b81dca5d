// MassTree building blocks (C19): slot permutation, key search, string bag, version word, small vector, circular integers, leaf links.
#include "compiler.hh"
#include "kpermuter.hh"
#include "ksearch.hh"
#include "stringbag.hh"
#include "nodeversion.hh"
#include "small_vector.hh"
#include "circular_int.hh"
#include "btree_leaflink.hh"
#include <string.h>
#include <stdlib.h>
#include "mc.h"
#include <map>

// ---------------------------------------------------------------- permutation
struct L3 { int k, i, j; };
template <int W> struct PermSeq : mc::SeqConfig {
  typedef kpermuter<W> P;
  struct S { P p; int n; int l[16]; };
  S *s = nullptr;
  int start = -1;                       // -1 = make_empty
  std::vector<L3> let;
  PermSeq(const std::string &nm, int start, int depth) : start(start) {
    name = nm; this->depth = depth;
    for (int i = 0; i < W; i++) { let.push_back({0, i, 0}); let.push_back({1, i, 0}); let.push_back({2, i, 0}); }
    for (int i = 0; i < W; i++) for (int j = 0; j < W; j++) { let.push_back({3, i, j}); let.push_back({4, i, j}); if (i <= j) { let.push_back({5, i, j}); let.push_back({6, i, j}); } }
    for (int i = 0; i <= W; i++) { let.push_back({7, i, W}); let.push_back({8, i, 0}); let.push_back({9, i, 0}); }
    nletters = let.size();
    dedupe = true;
  }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override { uint64_t v = s->p.value(); if (W < 15) v &= (uint64_t(16) << (W * 4)) - 1; return v * 0x9E3779B97F4A7C15ull + 1; }
  std::string letter_name(int l) override {
    static const char *N[] = {"insert_from_back", "remove", "remove_to_back", "insert_selected", "exchange", "rotate", "exchange_values", "rotate", "set_size", "make_sorted+value_from"};
    return std::string(N[let[l].k]) + "(" + std::to_string(let[l].i) + "," + std::to_string(let[l].j) + ")";
  }
  void setup() override {
    s = new S();
    if (start < 0) { s->p = P(P::make_empty()); s->n = 0; } else { s->p = P(P::make_sorted(start)); s->n = start; }
    for (int i = 0; i < W; i++) s->l[i] = i < s->n ? i : W - 1 - (i - s->n);      // free elements are handed out from the back, lowest first
  }
  void mv(int from, int to) {           // list operation: take the element at from and put it at to
    int v = s->l[from];
    if (from < to) for (int i = from; i < to; i++) s->l[i] = s->l[i + 1];
    else for (int i = from; i > to; i--) s->l[i] = s->l[i - 1];
    s->l[to] = v;
  }
  void apply(int x) override {
    L3 a = let[x];
    P &p = s->p;
    switch (a.k) {
      case 0: if (s->n == W || a.i > s->n) return; { int r = p.insert_from_back(a.i); if (r != s->l[W - 1]) mc::fail("insert_from_back returned %d instead of %d", r, s->l[W - 1]); } mv(W - 1, a.i); s->n++; return;
      case 1: if (a.i >= s->n) return; p.remove(a.i); mv(a.i, s->n - 1); s->n--; return;
      case 2: if (a.i >= s->n) return; p.remove_to_back(a.i); mv(a.i, W - 1); s->n--; return;
      case 3: if (s->n == W || a.i > s->n || a.j < s->n) return; p.insert_selected(a.i, a.j); mv(a.j, a.i); s->n++; return;
      case 4: p.exchange(a.i, a.j); std::swap(s->l[a.i], s->l[a.j]); return;
      case 5: case 7:                   // fully specified for a full permutation only
        if (a.i > a.j || a.j > s->n || s->n != W) return;
        p.rotate(a.i, a.j);
        { int t[16], m = W - a.i; for (int k = a.i; k < W; k++) t[k] = s->l[a.i + (k - a.i + a.j - a.i) % m]; for (int k = a.i; k < W; k++) s->l[k] = t[k]; }
        return;
      case 6: p.exchange_values(a.i, a.j); for (int k = 0; k < W; k++) { if (s->l[k] == a.i) s->l[k] = a.j; else if (s->l[k] == a.j) s->l[k] = a.i; } return;
      case 8: p.set_size(a.i); s->n = a.i; return;
      case 9: {
        P q(P::make_sorted(a.i));
        if (q.size() != a.i) mc::fail("make_sorted(%d) has size %d", a.i, q.size());
        for (int k = 0; k < W; k++) if (q[k] != (k < a.i ? k : W - 1 - (k - a.i))) mc::fail("make_sorted(%d)[%d] = %d", a.i, k, q[k]);
        // the remaining elements from position i on, as used when a node is split
        if (a.i <= s->n) {
          typename P::value_type v = p.value_from(a.i);
          for (int k = a.i; k < s->n; k++) { int e = (v >> (4 * (k - a.i))) & 15; if (e != s->l[k]) mc::fail("value_from(%d) element %d is %d, not %d", a.i, k - a.i, e, s->l[k]); }
        }
        return;
      }
    }
  }
  void audit() override {
    if (s->p.size() != s->n || P::size(s->p.value()) != s->n) mc::fail("size %d instead of %d", s->p.size(), s->n);
    for (int k = 0; k < W; k++) if (s->p[k] != s->l[k]) mc::fail("element %d is %d instead of %d", k, s->p[k], s->l[k]);
    if (s->p.back() != s->l[W - 1]) mc::fail("back() is %d instead of %d", s->p.back(), s->l[W - 1]);
    P q(s->p.value());
    if (q != s->p) mc::fail("copy differs");
  }
};

// ---------------------------------------------------------------- key search in a permuted or plainly sorted node
template <int W> struct PNode {
  typedef kpermuter<W> permuter_type;
  permuter_type p; long keys[W];
  permuter_type permutation() const { return p; }
  int compare_key(long k, int i) const { return k < keys[i] ? -1 : k > keys[i]; }
};
template <int W> struct SNode {
  int n; long keys[W];
  int size() const { return n; }
  int compare_key(long k, int i) const { return k < keys[i] ? -1 : k > keys[i]; }
};
template <int W> struct SearchSeq : mc::SeqConfig {
  struct S { PNode<W> a; SNode<W> b; bool in[32]; };
  S *s = nullptr; int U;
  SearchSeq(const std::string &nm, int U, int depth) : U(U) { name = nm; this->depth = depth; nletters = U; dedupe = true; }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override { uint64_t h = s->a.p.value(); for (int i = 0; i < U; i++) h = h * 1000003 + s->in[i]; for (int i = 0; i < s->a.p.size(); i++) h = h * 1000003 + s->a.p[i]; return h; }
  std::string letter_name(int l) override { return "toggle" + std::to_string(l); }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); s->a.p = kpermuter<W>(kpermuter<W>::make_empty()); }
  void apply(int k) override {
    long key = 2 * k + 1;
    int at = 0; while (at < s->b.n && s->b.keys[at] < key) at++;
    if (!s->in[k]) {
      if (s->b.n == W) return;
      int slot = s->a.p.insert_from_back(at);
      s->a.keys[slot] = key;
      for (int i = s->b.n; i > at; i--) s->b.keys[i] = s->b.keys[i - 1];
      s->b.keys[at] = key; s->b.n++;
      s->in[k] = true;
    } else {
      if (s->b.n & 1) s->a.p.remove(at); else s->a.p.remove_to_back(at);
      for (int i = at; i + 1 < s->b.n; i++) s->b.keys[i] = s->b.keys[i + 1];
      s->b.n--; s->in[k] = false;
    }
  }
  template <class B> void probe(const char *w) {
    for (long key = 0; key <= 2 * U; key++) {
      int lo = 0, hit = 0; for (int i = 0; i < s->b.n; i++) { if (s->b.keys[i] < key) lo++; if (s->b.keys[i] == key) hit = 1; }
      key_indexed_position x = B::lower(key, s->a), y = B::lower(key, s->b), z = B::lower_by(key, s->a, key_comparator<long, PNode<W>>());
      int want = hit ? s->a.p[lo] : -1;
      if (x.i != lo || x.p != want || z.i != lo || z.p != want) mc::fail("%s lower(%ld) = (%d,%d) instead of (%d,%d)", w, key, x.i, x.p, lo, want);
      if (y.i != lo || y.p != (hit ? lo : -1)) mc::fail("%s lower(%ld) = (%d,%d) in an unpermuted node", w, key, y.i, y.p);
      int u = B::upper(key, s->a), v = B::upper(key, s->b);
      if (u != lo + hit || v != lo + hit) mc::fail("%s upper(%ld) = %d, %d instead of %d", w, key, u, v, lo + hit);
    }
  }
  void audit() override { probe<key_bound_binary>("binary"); probe<key_bound_linear>("linear"); probe<typename key_bound<W>::type>("default"); }
};

// ---------------------------------------------------------------- string bag
template <class T> struct BagSeq : mc::SeqConfig {
  static const int BW = 3;
  struct S { stringbag<T> *b; size_t cap; int len[BW]; unsigned char fillc[BW]; int step; char *buf; };
  S *s = nullptr;
  size_t cap; std::vector<int> lens;
  BagSeq(const std::string &nm, size_t cap, std::vector<int> lens, int depth) : cap(cap), lens(lens) { name = nm; this->depth = depth; nletters = BW * lens.size(); }
  std::string letter_name(int l) override { return "assign(" + std::to_string(l / lens.size()) + ", " + std::to_string(lens[l % lens.size()]) + " bytes)"; }
  void setup() override {
    s = new S(); memset(s, 0, sizeof *s);
    s->cap = cap; s->b = new (malloc(cap)) stringbag<T>(BW, cap);
    s->buf = (char *)malloc(65536);
    if (s->b->capacity() != cap || s->b->used_capacity() != stringbag<T>::overhead(BW)) mc::fail("new bag: capacity %zu used %zu", s->b->capacity(), s->b->used_capacity());
  }
  static unsigned char ch(int f, int i) { return (unsigned char)(f * 37 + i * 7 + 1); }
  void apply(int l) override {
    int p = l / lens.size(), len = lens[l % lens.size()], f = ++s->step;
    for (int i = 0; i < len; i++) s->buf[i] = ch(f, i);
    size_t used = s->b->used_capacity(), cap = s->b->capacity();
    bool must = len <= s->len[p] || (used + std::max(len, 8) <= cap && used + len <= (size_t)(T)-1);   // offsets and the fill level have to fit their type
    bool ok = f & 1 ? s->b->assign(p, s->buf, len) : s->b->assign(p, lcdf::Str(s->buf, len));
    if (must && !ok) mc::fail("assign of %d bytes refused although %zu of %zu bytes are used", len, used, s->b->capacity());
    if (ok) { s->len[p] = len; s->fillc[p] = f; }
    if (s->b->used_capacity() > s->b->capacity() || s->b->used_capacity() < used) mc::fail("used capacity went from %zu to %zu", used, s->b->used_capacity());
  }
  void audit() override {
    for (int p = 0; p < BW; p++) {
      lcdf::Str x = s->b->get(p), y = (*s->b)[p];
      if (x.len != s->len[p] || y.len != x.len || y.s != x.s) mc::fail("slot %d has %d bytes instead of %d", p, x.len, s->len[p]);
      for (int i = 0; i < x.len; i++) if ((unsigned char)x.s[i] != ch(s->fillc[p], i)) mc::fail("slot %d byte %d differs", p, i);
      if (x.len && x.len <= 8) { volatile uint64_t w; memcpy((void *)&w, x.s, 8); }       // equals_sloppy reads a whole word
    }
  }
};

// ---------------------------------------------------------------- version word, one thread
template <class NP> struct VerSeq : mc::SeqConfig {
  typedef nodeversion<NP> V;
  struct Snap { V v; bool on, changed, split, touched; int ins; };
  struct S { V v; bool leaf, locked, ins, spl, del, root; Snap sn[2]; int nx; };
  S *s = nullptr; int pre;
  enum { LOCK, TRYLOCK, UNLOCK, INSM, INSV, SPLM, CHG0, CHG1, DELM, DELTREE, ROOT, NONROOT, SNAP, NL };
  VerSeq(const std::string &nm, int pre, int depth) : pre(pre) { name = nm; this->depth = depth; nletters = NL; }
  std::string letter_name(int l) override { static const char *N[] = {"lock", "try_lock", "unlock", "mark_insert", "mark_insert(v)", "mark_split", "mark_change(0)", "mark_change(1)", "mark_deleted", "mark_deleted_tree", "mark_root", "mark_nonroot", "snapshot"}; return N[l]; }
  void setup() override {
    s = new S(); memset(s, 0, sizeof *s);
    s->leaf = pre & 1; s->v = V(s->leaf);
    for (int i = 0; i < pre; i++) { s->v.lock(); if (i % 100 == 99) s->v.mark_split(); else s->v.mark_insert(); s->v.unlock(); }
  }
  void mark(bool split) {
    (split ? s->spl : s->ins) = true;
    for (auto &n : s->sn) { n.changed = true; if (split) n.split = true; else n.ins++; }
  }
  void apply(int l) override {
    V &v = s->v;
    switch (l) {
      case LOCK: if (s->locked) return; { V r = v.lock(); if (r.version_value() != v.version_value()) mc::fail("lock returned another version"); } s->locked = true; return;
      case TRYLOCK: { bool ok = v.try_lock(); if (ok != !s->locked) mc::fail("try_lock on a %s word returned %d", s->locked ? "locked" : "free", ok); s->locked = true; return; }
      case UNLOCK: if (!s->locked) return; { bool was = v.is_root(); v.unlock(); (void)was; }
        if (s->spl) s->root = false;
        s->locked = s->ins = s->spl = false; return;
      case INSM: if (!s->locked) return; v.mark_insert(); mark(false); return;
      case INSV: if (!s->locked) return; { V r = v.mark_insert(v); if (r.version_value() != v.version_value()) mc::fail("mark_insert returned another version"); } mark(false); return;
      case SPLM: if (!s->locked) return; v.mark_split(); mark(true); return;
      case CHG0: if (!s->locked) return; v.mark_change(false); mark(false); return;
      case CHG1: if (!s->locked) return; v.mark_change(true); mark(true); return;
      case DELM: if (!s->locked) return; v.mark_deleted(); mark(true); s->del = true; return;
      case DELTREE: if (!s->locked || !s->root || s->del) return; v.mark_deleted_tree(); for (auto &n : s->sn) n.changed = true, n.touched = true; s->del = true; return;
      case ROOT: v.mark_root(); if (!s->root) for (auto &n : s->sn) n.touched = true; s->root = true; return;
      case NONROOT: if (!s->locked) return; v.mark_nonroot(); if (s->root) for (auto &n : s->sn) n.touched = true; s->root = false; return;
      case SNAP: if (s->ins || s->spl) return; { Snap &n = s->sn[s->nx]; s->nx ^= 1; n.v = v.stable(); n.on = true; n.changed = n.split = n.touched = false; n.ins = 0; } return;
    }
  }
  void audit() override {
    V &v = s->v;
    if (v.isleaf() != s->leaf || v.locked() != s->locked || v.inserting() != s->ins || v.splitting() != s->spl || v.deleted() != s->del) mc::fail("flags: leaf %d locked %d inserting %d splitting %d deleted %d", v.isleaf(), v.locked(), v.inserting(), v.splitting(), v.deleted());
    if (v.is_root() != s->root) mc::fail("is_root %d instead of %d", v.is_root(), s->root);
    for (auto &n : s->sn) if (n.on) {
      if (n.changed && !v.has_changed(n.v)) mc::fail("has_changed missed a change since the snapshot");
      if (!n.changed && !n.touched && v.has_changed(n.v)) mc::fail("has_changed although the word was only locked and unlocked");
      if (n.split && !s->spl && (!v.has_split(n.v) || !v.simple_has_split(n.v))) mc::fail("has_split missed a split");
      if (!n.split && !n.touched && !n.ins && v.has_split(n.v)) mc::fail("has_split although nothing was split");
    }
  }
};

// ---------------------------------------------------------------- small vector
struct El {
  long *p;
  static long *mk(long v) { long *q = (long *)malloc(8); *q = v; return q; }
  El() : p(mk(0)) {}
  El(long v) : p(mk(v)) {}
  El(const El &o) : p(mk(*o.p)) {}
  El(El &&o) : p(mk(*o.p)) { *o.p = -1; }
  El &operator=(const El &o) { *p = *o.p; return *this; }
  El &operator=(El &&o) { long v = *o.p; *o.p = -1; *p = v; return *this; }
  ~El() { *p = -2; free(p); }
};
template <unsigned N> struct SvSeq : mc::SeqConfig {
  typedef small_vector<El, N> V;
  struct S { V v; int n; long l[64]; long step; long blocks0; };
  S *s = nullptr;
  struct A { int k, i, j; };
  std::vector<A> let;
  SvSeq(const std::string &nm, int depth) {
    name = nm; this->depth = depth;
    let = {{0, 0, 0}, {1, 0, 0}, {2, 0, 0}, {3, 0, 0}, {4, 0, 0}, {5, 0, 0}, {5, 1, 0}, {5, 3, 0}, {5, 7, 0}, {6, 0, 0}, {6, 1, 0}, {6, 2, 0}, {7, 0, 2}, {7, 1, 3}, {7, 1, 1}, {7, 0, 1}, {8, 0, 0}, {8, 1, 0}, {8, 4, 0}, {9, 0, 0}, {10, 0, 0}};
    nletters = let.size();
  }
  std::string letter_name(int l) override {
    static const char *Nm[] = {"push", "push-move", "emplace", "pop", "clear", "resize", "erase", "erase-range", "assign", "self-assign", "copy"};
    return std::string(Nm[let[l].k]) + "(" + std::to_string(let[l].i) + "," + std::to_string(let[l].j) + ")";
  }
  void setup() override { s = new S(); s->n = 0; s->step = 10; s->blocks0 = mc::live_blocks(); }
  void apply(int x) override {
    A a = let[x]; V &v = s->v; long id = ++s->step;
    switch (a.k) {
      case 0: { El e(id); v.push_back(e); if (*e.p != id) mc::fail("push_back changed its argument"); s->l[s->n++] = id; return; }
      case 1: { El e(id); v.push_back(std::move(e)); s->l[s->n++] = id; return; }
      case 2: v.emplace_back(id); s->l[s->n++] = id; return;
      case 3: if (!s->n) return; v.pop_back(); s->n--; return;
      case 4: v.clear(); s->n = 0; return;
      case 5: v.resize(a.i, El(id)); for (; s->n < a.i; s->n++) s->l[s->n] = id; s->n = a.i; return;
      case 6: if (a.i >= s->n) return; { auto it = v.erase(v.begin() + a.i); if (it - v.begin() != a.i) mc::fail("erase returned another position"); } for (int i = a.i; i + 1 < s->n; i++) s->l[i] = s->l[i + 1]; s->n--; return;
      case 7: if (a.j > s->n) return; { auto it = v.erase(v.begin() + a.i, v.begin() + a.j); if (it - v.begin() != a.i) mc::fail("erase returned another position"); } for (int i = a.j; i < s->n; i++) s->l[i - (a.j - a.i)] = s->l[i]; s->n -= a.j - a.i; return;
      case 8: { V w; for (int i = 0; i < a.i; i++) w.push_back(El(id * 100 + i)); v = w; if ((int)w.size() != a.i) mc::fail("assignment changed its source"); for (int i = 0; i < a.i; i++) { if (*w[i].p != id * 100 + i) mc::fail("assignment changed its source"); s->l[i] = id * 100 + i; } s->n = a.i; return; }
      case 9: { V &w = v; v = w; return; }
      case 10: { V w(v); cmp(w, "copy"); w.push_back(El(1)); w[0] = El(7); return; }
    }
  }
  template <class X> void cmp(X &v, const char *w) {
    if ((int)v.size() != s->n || v.empty() != !s->n || !v != !s->n || v.capacity() < v.size()) mc::fail("%s: size %u instead of %d", w, v.size(), s->n);
    for (int i = 0; i < s->n; i++) if (*v[i].p != s->l[i]) mc::fail("%s: element %d is %ld instead of %ld", w, i, *v[i].p, s->l[i]);
    int i = 0; for (auto &e : v) if (*e.p != s->l[i++]) mc::fail("%s: iteration", w);
    for (auto it = v.rbegin(); it != v.rend(); ++it) if (*it->p != s->l[--i]) mc::fail("%s: reverse iteration", w);
    if (s->n && (*v.front().p != s->l[0] || *v.back().p != s->l[s->n - 1])) mc::fail("%s: front/back", w);
  }
  void audit() override {
    cmp(s->v, "vector");
    long heap = s->v.capacity() > N;      // one block per element and at most one for the array
    if (mc::live_blocks() != s->blocks0 + s->n + heap) mc::fail("%ld blocks live, %ld expected: an element was constructed or destroyed a wrong number of times", mc::live_blocks() - s->blocks0, s->n + heap);
  }
};

// ---------------------------------------------------------------- circular integers: every pair of 8-bit values
struct CircSeq : mc::SeqConfig {
  CircSeq() { name = "circular integers, 8 bits"; depth = 1; nletters = 256; }
  void apply(int a) override {
    typedef circular_int<uint8_t> C;
    for (int b = 0; b < 256; b++) {
      C x((uint8_t)a), y((uint8_t)b);
      int d = (int8_t)(a - b);
      if ((x < y) != (d < 0 ) && d != -128) mc::fail("%d < %d", a, b);
      if (d != -128 && ((x > y) != (d > 0) || (x <= y) != (d <= 0) || (x >= y) != (d >= 0))) mc::fail("order of %d and %d", a, b);
      if ((x == y) != (a == b) || (x != y) != (a != b) || (x - y) != d) mc::fail("equality or difference of %d and %d", a, b);
      if ((x + b).value() != (uint8_t)(a + b) || (x - b).value() != (uint8_t)(a - b)) mc::fail("sum of %d and %d", a, b);
      C z = x; z += b; C w = x; w -= b;
      if (z.value() != (uint8_t)(a + b) || w.value() != (uint8_t)(a - b)) mc::fail("%d += %d", a, b);
    }
    circular_int<uint8_t> x((uint8_t)a), y = x, z = x;
    if ((++y).value() != (uint8_t)(a + 1) || (z--).value() != a || z.value() != (uint8_t)(a - 1)) mc::fail("increment of %d", a);
    if (x.next_nonzero().value() != (a == 255 ? 1 : a + 1) || circular_int<uint8_t>::next_nonzero(a) != (a == 255 ? 1 : a + 1)) mc::fail("next_nonzero of %d", a);
    if ((bool)x != (a != 0) || !x != (a == 0)) mc::fail("truth of %d", a);
  }
};

// ---------------------------------------------------------------- version word under concurrency
struct VData { nodeversion32 v; long x, y, in; };
static VData *vd;
struct VerConc : mc::Config {
  enum { INS = 1, SPL, DEL, TRY, LCK, READ, RUP };
  std::vector<std::vector<int>> progs;
  static const char *nm(int o) { static const char *N[] = {"?", "insert", "split", "delete", "try-insert", "lock-only", "read", "read-then-lock"}; return N[o]; }
  int prefill = 0;
  void setup() override { vd = new VData(); memset((void *)vd, 0, sizeof *vd); vd->v = nodeversion32(true); for (int i = 0; i < prefill; i++) { vd->v.lock(); vd->v.mark_insert(); vd->v.unlock(); } }
  long crit(int mark) {
    if (vd->in) mc::fail("two threads hold the lock");
    vd->in = 1;
    if (mark == INS) vd->v.mark_insert(); else if (mark == SPL) vd->v.mark_split(); else if (mark == DEL) vd->v.mark_deleted();
    long r = vd->x;
    if (vd->y != r) mc::fail("lock holder sees x=%ld y=%ld", r, vd->y);
    if (mark) { vd->x = r + 1; vd->y = r + 1; }
    vd->in = 0;
    return r;
  }
  void body(int t) override {
    for (int op : progs[t - 1]) {
      int h = mc::op_begin(op, 0); long r = -1, d = 0;
      switch (op) {
        case INS: case SPL: case DEL: case LCK: vd->v.lock(); r = crit(op == LCK ? 0 : op); vd->v.unlock(); break;
        case TRY: if (vd->v.try_lock()) { r = crit(INS); vd->v.unlock(); } break;
        case READ: case RUP: {
          nodeversion32 v = vd->v.stable();
          if (v.inserting() || v.splitting()) mc::fail("stable() returned a version with changes in progress");
          long x = vd->x, y = vd->y;
          if (op == READ) {
            bool ch = vd->v.has_changed(v);
            if (!ch) { r = x; if (x != y) mc::fail("unchanged version but x=%ld y=%ld", x, y); }
            else d = 1;
          } else {
            nodeversion32 w = vd->v.lock(v);
            if (!w.locked()) mc::fail("lock returned an unlocked version");
            bool ch = w.has_changed(v) && vd->v.has_changed(v);
            long c = crit(INS);
            if (!ch && (x != c || y != c)) mc::fail("locked with an unchanged version but the data went from %ld to %ld", x, c);
            r = c; vd->v.unlock();
          }
        }
      }
      mc::op_data(h, &d, 1); mc::op_end(h, r);
    }
  }
  void final_phase() override { mc::fin(vd->x); mc::fin(vd->y); mc::fin(vd->v.locked() || vd->v.inserting() || vd->v.splitting()); mc::fin(vd->v.deleted()); }
  std::string describe(const mc::OpRec &q) override { return "T" + std::to_string(q.tid) + " " + nm(q.op) + (q.done ? " -> " + std::to_string(q.r) : " (unfinished)"); }
  static bool wr(const mc::OpRec &q) { return q.op == INS || q.op == SPL || q.op == DEL || q.op == RUP || (q.op == TRY && q.r >= 0); }
  bool check(const mc::Hist &h, std::string &why) override {
    long n = 0; bool del = false;
    for (auto &q : h.ops) { n += wr(q); del |= q.op == DEL; }
    if (h.fin[0] != n || h.fin[1] != n) { why = "a write was lost"; return false; }
    if (h.fin[2] || h.fin[3] != (long)del) { why = "lock, insert, split or deleted bit wrong at the end"; return false; }
    for (auto &q : h.ops) {
      long lo = 0, hi = 0; bool over = false;
      for (auto &p : h.ops) if (&p != &q && wr(p)) { if (q.before >> p.id() & 1) lo++; if (!(p.before >> q.id() & 1)) hi++; }
      for (auto &p : h.ops) if (&p != &q && p.op != READ && !(q.before >> p.id() & 1) && !(p.before >> q.id() & 1)) over = true;
      if (q.r >= 0 && (q.r < lo || q.r > hi)) { why = "a stale value was accepted"; return false; }
      if (q.r < 0 && (q.op != READ && q.op != TRY)) { why = "an operation was not admitted"; return false; }
      if (q.r < 0 && !over) { why = "refused although nobody else was active"; return false; }
    }
    return true;
  }
};

// ---------------------------------------------------------------- leaf links
struct LN { LN *prev_; union { LN *ptr; uintptr_t x; } next_; long key; };
typedef btree_leaflink<LN, true> Link;
typedef btree_leaflink<LN, false> Link1;
struct Leaves { LN *head; LN *n[8]; LN *fresh[8][4]; };
static Leaves *lv;
static LN *safe_next(LN *n) { return (LN *)(n->next_.x & ~(uintptr_t)1); }
struct LinkConc : mc::Config {
  enum { SPLIT = 1, UNLINK, SPLITNEW, UNLINKNEW, WALK };
  int nodes = 4;                        // node 0 is never unlinked
  struct Pr { int node; std::vector<int> ops; };
  std::vector<Pr> progs;
  bool plain = false;
  static const char *nm(int o) { static const char *N[] = {"?", "split", "unlink", "split-new", "unlink-new", "walk"}; return N[o]; }
  static LN *mk(long key) { LN *l = new LN(); l->prev_ = nullptr; l->next_.ptr = nullptr; l->key = key; return l; }
  void setup() override {
    lv = new Leaves(); memset((void *)lv, 0, sizeof *lv);
    for (int i = 0; i < nodes; i++) { lv->n[i] = mk(i * 1000); if (i) { lv->n[i]->prev_ = lv->n[i - 1]; lv->n[i - 1]->next_.ptr = lv->n[i]; } }
    lv->head = lv->n[0];
    // new leaves are allocated up front, as a split does before it touches the list
    for (size_t t = 0; t < progs.size(); t++) for (int k = 0; k < 4; k++) lv->fresh[t][k] = mk(0);
  }
  void body(int t) override {
    const Pr &p = progs[t - 1];
    LN *cur = p.node >= 0 ? lv->n[p.node] : nullptr, *last = nullptr; int nf = 0;
    long base = p.node * 1000, step = 512;
    for (int op : p.ops) {
      int h = mc::op_begin(op, p.node);
      long keys[16]; int n = 0;
      switch (op) {
        case SPLIT: last = lv->fresh[t - 1][nf++]; last->key = base + step; step /= 2; n = 0; plain ? Link1::link_split(cur, last) : Link::link_split(cur, last); keys[n++] = last->key; break;
        case SPLITNEW: { LN *x = lv->fresh[t - 1][nf++]; x->key = last->key + 1; plain ? Link1::link_split(last, x) : Link::link_split(last, x); keys[n++] = x->key; last = x; break; }
        case UNLINK: plain ? Link1::unlink(cur) : Link::unlink(cur); keys[n++] = cur->key; break;
        case UNLINKNEW: plain ? Link1::unlink(last) : Link::unlink(last); keys[n++] = last->key; break;
        case WALK: for (LN *x = lv->head; x && n < 16; x = safe_next(x)) keys[n++] = x->key; break;
      }
      mc::op_data(h, keys, n); mc::op_end(h, 0);
    }
  }
  void final_phase() override {
    LN *prev = nullptr; int n = 0;
    for (LN *x = lv->head; x && n < 20; x = safe_next(x), n++) {
      if (x->next_.x & 1) mc::fail("leaf %ld is left marked", x->key);
      if (n && x->prev_ != prev) mc::fail("leaf %ld has leaf %ld before it, but its back link names %ld", x->key, prev->key, x->prev_ ? x->prev_->key : -1);
      mc::fin(x->key); prev = x;
    }
  }
  std::string describe(const mc::OpRec &q) override { std::string s = "T" + std::to_string(q.tid) + " " + nm(q.op) + " " + std::to_string(q.a) + " ["; for (long d : q.data) s += std::to_string(d) + ","; return s + "]"; }
  bool check(const mc::Hist &h, std::string &why) override {
    std::map<long, int> present;        // at the end
    for (int i = 0; i < nodes; i++) present[i * 1000] = 1;
    for (auto &q : h.ops) { if (q.op == SPLIT || q.op == SPLITNEW) present[q.data[0]] = 1; }
    for (auto &q : h.ops) { if (q.op == UNLINK || q.op == UNLINKNEW) present.erase(q.data[0]); }
    std::vector<long> want; for (auto &p : present) want.push_back(p.first);
    if (want != h.fin) { why = "the list ends as"; for (long k : h.fin) why += " " + std::to_string(k); return false; }
    for (auto &q : h.ops) if (q.op == WALK) {
      for (size_t i = 1; i < q.data.size(); i++) if (q.data[i] <= q.data[i - 1]) { why = "walk out of order"; return false; }
      auto seen = [&](long k) { for (long d : q.data) if (d == k) return true; return false; };
      auto added = [&](long k) { for (auto &p : h.ops) if ((p.op == SPLIT || p.op == SPLITNEW) && p.data[0] == k) return &p; return (const mc::OpRec *)nullptr; };
      auto removed = [&](long k) { for (auto &p : h.ops) if ((p.op == UNLINK || p.op == UNLINKNEW) && p.data[0] == k) return &p; return (const mc::OpRec *)nullptr; };
      std::vector<long> all = want; for (auto &p : h.ops) if (p.op == UNLINK || p.op == UNLINKNEW) all.push_back(p.data[0]);
      for (long k : all) {
        auto a = added(k), r = removed(k);
        if (!seen(k) && (!a || (q.before >> a->id() & 1)) && (!r || (r->before >> q.id() & 1))) { why = "walk missed leaf " + std::to_string(k); return false; }
        // a split that was under way when the leaf went away may still lead to it (the splitting thread keeps it from being freed)
        bool held = false;
        if (r) for (auto &p : h.ops) if ((p.op == SPLIT || p.op == SPLITNEW) && !(r->before >> p.id() & 1) && !(q.before >> p.id() & 1)) held = true;
        if (seen(k) && ((a && (a->before >> q.id() & 1)) || (r && !held && (q.before >> r->id() & 1)))) { why = "walk saw leaf " + std::to_string(k) + " outside its lifetime"; return false; }
      }
    }
    return true;
  }
};

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &, const std::string &tier) {
    mc::Suite s; bool th = tier == "thorough";
    s.rule = "every reachable permutation, every operation sequence on bags, version words and vectors up to the stated depth, every interleaving of the listed lock and link programs";
    s.seq.push_back(new PermSeq<1>("permutation width 1, all states", -1, 20));
    s.seq.push_back(new PermSeq<3>("permutation width 3, all states", -1, 60));
    s.seq.push_back(new PermSeq<4>("permutation width 4, all states", -1, 60));
    s.seq.push_back(new PermSeq<5>("permutation width 5, all states", -1, 60));
    if (th) { s.seq.push_back(new PermSeq<6>("permutation width 6, all states", -1, 60)); s.seq.push_back(new PermSeq<7>("permutation width 7, all states", -1, 60)); }
    s.seq.push_back(new PermSeq<7>("permutation width 7 from 4", 4, 2));
    s.seq.push_back(new PermSeq<8>("permutation width 8 from 8", 8, th ? 3 : 2));
    s.seq.push_back(new PermSeq<8>("permutation width 8 from 4", 4, th ? 3 : 2));
    for (int n : {0, 7, 14, 15}) s.seq.push_back(new PermSeq<15>("permutation width 15 from " + std::to_string(n), n, th ? 3 : 2));
    s.seq.push_back(new SearchSeq<3>("search width 3", 5, 30));
    s.seq.push_back(new SearchSeq<4>("search width 4", 5, 30));
    s.seq.push_back(new SearchSeq<15>("search width 15", th ? 18 : 16, th ? 4 : 3));
    s.seq.push_back(new SearchSeq<5>("search width 5", 6, th ? 30 : 6));
    int bd = th ? 6 : 4;
    for (int extra : {8, 9, 17, 24, 40}) {
      s.seq.push_back(new BagSeq<uint8_t>("bag of 8-bit offsets, " + std::to_string(extra) + " free", stringbag<uint8_t>::overhead(3) + extra, {0, 1, 3, 8, 9}, bd));
      s.seq.push_back(new BagSeq<uint16_t>("bag of 16-bit offsets, " + std::to_string(extra) + " free", stringbag<uint16_t>::overhead(3) + extra, {0, 1, 3, 8, 9}, bd));
    }
    s.seq.push_back(new BagSeq<uint8_t>("bag of 8-bit offsets, 256 bytes", 256, {0, 8, 64, 114, 128, 120, 240}, bd));
    s.seq.push_back(new BagSeq<uint8_t>("bag of 8-bit offsets, 255 bytes", 255, {0, 8, 64, 113, 128, 121, 239}, bd));
    s.seq.push_back(new BagSeq<uint16_t>("bag of 16-bit offsets, 65536 bytes", 65536, {8, 65000, 506, 516}, bd));
    s.seq.push_back(new BagSeq<uint16_t>("bag of 16-bit offsets, 300 bytes", 300, {0, 8, 100, 255, 256, 140}, bd));
    for (int pre : {0, 1, 62, 63, 127, 199}) s.seq.push_back(new VerSeq<nodeversion_parameters<uint32_t>>("version word 32 bits after " + std::to_string(pre), pre, th ? 7 : 5));
    s.seq.push_back(new VerSeq<nodeversion_parameters<uint64_t>>("version word 64 bits after 1", 1, th ? 7 : 5));
    s.seq.push_back(new SvSeq<1>("small vector 1", th ? 5 : 4));
    s.seq.push_back(new SvSeq<2>("small vector 2", th ? 5 : 4));
    s.seq.push_back(new SvSeq<4>("small vector 4", th ? 5 : 4));
    s.seq.push_back(new CircSeq());
    auto ver = [&](std::vector<std::vector<int>> p, int bound, int pre = 0) {
      int del = 0; bool w = false; for (auto &q : p) for (int x : q) { del += x == VerConc::DEL; w |= x != VerConc::READ; }
      if (del > 1 || !w) return;
      auto *c = new VerConc(); c->progs = p; c->nthreads = p.size(); c->bound = bound; c->prefill = pre;
      c->name = "version" + (pre ? std::to_string(pre) : std::string());
      for (auto &q : p) { c->name += " |"; for (int x : q) c->name += std::string(" ") + VerConc::nm(x); }
      s.conc.push_back(c);
    };
    for (int a = 1; a <= 7; a++) for (int b = 1; b <= 7; b++) for (int c = 1; c <= 7; c++) ver({{a, b}, {c}}, 255);
    for (int a = 1; a <= 7; a++) for (int b = a; b <= 7; b++) for (int c = b; c <= 7; c++) { ver({{a}, {b}, {c}}, th ? 255 : 3); if (th) ver({{a}, {b}, {c}}, 255, 63); }
    for (int a = 0; a < 49; a++) for (int b = a; b < 49; b++) ver({{a / 7 + 1, a % 7 + 1}, {b / 7 + 1, b % 7 + 1}}, th ? 255 : 3, 63);
    if (th) for (int a = 1; a <= 7; a++) for (int b = 1; b <= 7; b++) for (int c = b; c <= 7; c++) ver({{VerConc::INS, a}, {b}, {c}}, 255);
    // leaf links: each thread works on a leaf it holds locked
    typedef LinkConc LC;
    std::vector<std::vector<int>> acts = {{LC::SPLIT}, {LC::UNLINK}, {LC::SPLIT, LC::UNLINKNEW}, {LC::SPLIT, LC::UNLINK}, {LC::SPLIT, LC::SPLIT}, {LC::SPLIT, LC::SPLITNEW}, {LC::SPLIT, LC::SPLITNEW, LC::UNLINK}, {LC::SPLIT, LC::SPLIT, LC::UNLINKNEW}};
    auto link = [&](std::vector<LC::Pr> p, int nodes, int bound) {
      auto *c = new LC(); c->nodes = nodes; c->progs = p; c->nthreads = p.size(); c->bound = bound;
      c->name = "links " + std::to_string(nodes);
      for (auto &q : p) { c->name += " |" + (q.node >= 0 ? std::to_string(q.node) : std::string()); for (int x : q.ops) c->name += std::string(" ") + LC::nm(x); }
      s.conc.push_back(c);
    };
    LC::Pr walk{-1, {LC::WALK}};
    for (auto &a : acts) for (auto &b : acts) {
      bool ua = a.back() == LC::UNLINK;
      for (auto pr : {std::make_pair(0, 1), std::make_pair(1, 2), std::make_pair(1, 3)}) {
        if (pr.first == 0 && ua) continue;
        link({{pr.first, a}, {pr.second, b}}, 4, 255);
        if (a.size() + b.size() <= (th ? 5 : 3)) link({{pr.first, a}, {pr.second, b}, walk}, 4, 255);
        for (auto &c : acts) if (pr.first == 1 && pr.second == 2 && a.size() + b.size() + c.size() <= (th ? 6 : 4)) {
          link({{1, a}, {2, b}, {3, c}}, 4, 255); link({{1, a}, {2, b}, {3, c}}, 5, th ? 255 : 4);
          if (th && a.size() + b.size() + c.size() <= 4) link({{1, a}, {2, b}, {3, c}, walk}, 5, 4);
        }
      }
    }
    for (auto &a : acts) if (a.size() == 1 || th) link({{1, a}, walk}, 3, 255);
    for (auto &a : acts) { link({{1, a}}, 3, 255); s.conc.back()->name += " one thread"; static_cast<LC *>(s.conc.back())->plain = true; }
    return s;
  });
}
