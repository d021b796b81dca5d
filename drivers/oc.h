// Ordered containers (set, map, multiset, multimap) against a sorted array: every operation sequence, breadth first
// over the distinct tree shapes, or to a depth from prefilled trees.  T describes the container:
//   C, multi, map, exact (order among equal keys is that of the standard containers), hint, erange, enext (erase returns
//   the next iterator), index (operator[]), bulk, eone (erase_one), cmp (==, <)
//   key(int), val(k, v), k(it), v(it), verify(C&), fp(C&), nodes(C&)
#pragma once
#include <string.h>
#include <string>
#include <vector>
#include "mc.h"

namespace oc {
extern long instances;                  // live tracked objects
struct Box {                            // notices being used without having been constructed, or after being destroyed
  int v; Box *self;
  Box() : v(0), self(this) { instances++; }
  explicit Box(int x) : v(x), self(this) { instances++; }
  Box(const Box &o) : v(o.get()), self(this) { instances++; }
  Box &operator=(const Box &o) { get(); v = o.get(); return *this; }
  ~Box() { get(); self = nullptr; instances--; }
  int get() const { if (self != this) mc::fail("a value is used that was never constructed, was destroyed or was moved bytewise"); return v; }
  bool operator==(const Box &o) const { return get() == o.get(); }
  bool operator!=(const Box &o) const { return get() != o.get(); }
  bool operator<(const Box &o) const { return get() < o.get(); }
};
struct BKey : Box {                     // a key of class type
  BKey() {}
  explicit BKey(int x) : Box(x) {}
};
inline int key_int(int k) { return k; }
inline int key_int(const BKey &k) { return k.get(); }
inline int key_int(const std::string &s) { return s.empty() ? 0 : s.size() < 3 ? 1 : (s[s.size() - 2] - 'a') * 26 + (s[s.size() - 1] - 'a'); }
inline void mk_key(int k, int &o) { o = k; }
inline void mk_key(int k, BKey &o) { o = BKey(k); }
inline void mk_key(int k, std::string &o) { char b[8] = {char('a' + k / 26), char('a' + k % 26), 0}; o = std::string(k % 3 == 0 ? "a common prefix of many bytes " : "a common prefix ") .substr(0, 0) + std::string("prefix-") + b; }

enum { INS = 1, HLB, HUB, HEND, HBEG, HPREV, DEL, DELI, DELL, DELRG, IDX, CLR, SWAP, COPY, ASG, SELF, RANGE, BULK, ONE, CTOR, SWITCH, OWN, DELOWN, OWNL };
struct L { int op, k, m; };
enum { MAXN = 700, MAXK = 700 };
struct Ref {
  int n; int k[MAXN], v[MAXN];
  int lb(int x) const { int i = 0; while (i < n && k[i] < x) i++; return i; }
  int ub(int x) const { int i = 0; while (i < n && k[i] <= x) i++; return i; }
  void ins(int at, int kk, int vv) { for (int i = n; i > at; i--) { k[i] = k[i - 1]; v[i] = v[i - 1]; } k[at] = kk; v[at] = vv; n++; }
  void del(int a, int b) { for (int i = b; i < n; i++) { k[a + i - b] = k[i]; v[a + i - b] = v[i]; } n -= b - a; }
  int fresh(int x) const { int c = 0; for (;; c++) { bool u = false; for (int i = 0; i < n; i++) if (k[i] == x && v[i] == c) u = true; if (!u) return c; } }
};

template <class T> struct OCSeq : mc::SeqConfig {
  typedef typename T::C C;
  typedef typename C::iterator It;
  typedef typename C::const_iterator CIt;
  int U; int dup = 1;                   // keys 0..U-1, each at most dup times
  std::vector<L> let;
  std::vector<int> pre;                 // keys inserted during set-up
  std::vector<int> pregone;             // keys erased again (one entry each)
  struct S { C *c[2]; Ref r[2]; };
  S *s = nullptr;
  long base = 0, ibase = 0;
  void init_name(const std::string &n) { name = n; nletters = let.size(); }
  std::string letter_name(int l) override {
    static const char *N[] = {"?", "insert", "insert@lower_bound", "insert@upper_bound", "insert@end", "insert@begin", "insert@before", "erase", "erase(lower_bound)", "erase(last of)", "erase-range", "index", "clear", "swap", "copy", "assign", "self-assign", "insert-range", "bulk-load", "erase_one", "construct-from-range", "exchange", "insert-own", "erase-by-own-key", "insert-own(last of)"};
    return std::string(N[let[l].op]) + "(" + std::to_string(let[l].k) + (let[l].op == DELRG ? ".." + std::to_string(let[l].m) : "") + ")";
  }
  void setup() override {
    s = new S(); memset(s, 0, sizeof *s);
    base = mc::live_blocks(); ibase = instances;
    s->c[0] = new C(); s->c[1] = new C();
    for (int k : pre) apply1({INS, k, 0});
    for (int k : pregone) apply1({T::multi ? DELI : DEL, k, 0});
  }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override { return T::fp(*s->c[0]) * 1000003 + T::fp(*s->c[1]); }
  int index(C &c, It it) { int i = 0; for (It j = c.begin(); j != it; ++j) { if (j == c.end() || i > MAXN) { mc::fail("an iterator is not in the container"); return -1; } i++; } return i; }
  void same_key_resync(C &c, Ref &r) {  // order among equal keys is not promised: take it over after checking that the entries are the same
    if (!T::multi || T::exact) return;
    int i = 0;
    for (It it = c.begin(); it != c.end() && i < r.n; ) {
      int k = r.k[i], j = i; while (j < r.n && r.k[j] == k) j++;
      int got[64], n = 0;
      for (int x = i; x < j && it != c.end(); x++, ++it) { if (T::k(it) != k) return; got[n++] = T::v(it); }
      if (n != j - i) return;
      for (int x = i; x < j; x++) { int hits = 0, want = 0; for (int y = 0; y < n; y++) hits += got[y] == r.v[x]; for (int y = i; y < j; y++) want += r.v[y] == r.v[x]; if (hits != want) return; }
      for (int x = 0; x < n; x++) r.v[i + x] = got[x];
      i = j;
    }
  }
  void apply(int l) override { apply1(let[l]); }
  void apply1(L a) {
    C &c = *s->c[0]; Ref &r = s->r[0];
    int lo = r.lb(a.k), hi = r.ub(a.k), cnt = hi - lo;
    int v = T::hasv ? (T::multi ? r.fresh(a.k) : a.k % 2) : 0;
    auto nth = [&](int i) { It it = c.begin(); while (i--) ++it; return it; };
    switch (a.op) {
      case INS: case HLB: case HUB: case HEND: case HBEG: case HPREV: {
        if (T::multi && cnt >= dup) return;
        It it; bool fresh = true; int at = hi;
        if (a.op == INS) {
          if constexpr (T::multi) it = c.insert(T::val(a.k, v));
          else { std::pair<It, bool> p = c.insert(T::val(a.k, v)); it = p.first; fresh = p.second; if (fresh != (cnt == 0)) mc::fail("insert(%d) reported %d with %d such keys present", a.k, fresh, cnt); }
        } else if constexpr (T::hint) {
          typename T::K key; mk_key(a.k, key);
          It h = a.op == HLB ? c.lower_bound(key) : a.op == HUB ? c.upper_bound(key) : a.op == HEND ? c.end() : c.begin();
          if (a.op == HPREV) { h = c.lower_bound(key); if (h == c.begin()) return; --h; }
          it = c.insert(h, T::val(a.k, v));
        }
        if (!T::multi && cnt) { fresh = false; at = lo; }
        if (it == c.end()) { mc::fail("insert(%d) returned end()", a.k); return; }
        if (T::k(it) != a.k || T::v(it) != (fresh ? v : r.v[at])) mc::fail("insert(%d) returned an iterator to %d=%d", a.k, T::k(it), T::v(it));
        int got = index(c, it);
        if (fresh && (a.op != INS || !T::exact)) { if (got < lo || got > hi) mc::fail("inserted %d at position %d, outside %d..%d", a.k, got, lo, hi); at = got; }
        else if (got != at) mc::fail("insert(%d) returned position %d instead of %d", a.k, got, at);
        if (fresh) { r.ins(at, a.k, v); }
        break;
      }
      case OWN: case OWNL: {                         // an entry of the container itself is inserted again
        if (!cnt || cnt >= dup) return;
        It o = a.op == OWN ? c.lower_bound(T::mkey(a.k)) : --c.upper_bound(T::mkey(a.k)); int ov = T::v(o);
        It it; if constexpr (T::multi) it = c.insert(*o); else it = c.insert(*o).first;
        if (it == c.end() || T::k(it) != a.k || T::v(it) != ov) mc::fail("insert of an entry of the container stored something else");
        if (T::multi) { int got = index(c, it); if (got < lo || got > hi || T::exact && got != hi) mc::fail("inserted %d at position %d, outside %d..%d", a.k, got, lo, hi); else r.ins(got, a.k, ov); }
        break;
      }
      case DEL: { long n = c.erase(T::mkey(a.k)); if (n != cnt) mc::fail("erase(%d) returned %ld instead of %d", a.k, n, cnt); r.del(lo, hi); break; }
      case DELOWN: { if (!cnt) return; long n = c.erase(T::keyref(c.lower_bound(T::mkey(a.k)))); if (n != cnt) mc::fail("erase(%d), by a reference to the key of an entry, returned %ld instead of %d", a.k, n, cnt); r.del(lo, hi); break; }
      case ONE: if constexpr (T::eone) {
        bool ok = c.erase_one(T::mkey(a.k));
        if (ok != (cnt > 0)) mc::fail("erase_one(%d) returned %d with %d present", a.k, ok, cnt);
        if (cnt) {                      // which one is not promised
          int gone = lo;
          if (T::hasv) for (int x = lo; x < hi; x++) { bool in = false; for (It it = c.begin(); it != c.end(); ++it) if (T::k(it) == a.k && T::v(it) == r.v[x]) in = true; if (!in) gone = x; }
          r.del(gone, gone + 1);
        }
        break;
      } else return;
      case DELI: case DELL: {
        int at = a.op == DELI ? lo : hi - 1;
        if (at < 0 || at >= r.n || !cnt) return;
        It it = a.op == DELI ? c.lower_bound(T::mkey(a.k)) : c.upper_bound(T::mkey(a.k));
        if (a.op == DELL) --it;
        int d = index(c, it); if (d != at) { mc::fail("the entry of %d is found at position %d instead of %d", a.k, d, at); return; }
        if constexpr (T::enext) { It nx = c.erase(it); int i = index(c, nx); if (i != at) mc::fail("erase of the entry at position %d returned position %d", at, i); }
        else c.erase(it);
        r.del(at, at + 1);
        break;
      }
      case DELRG: if constexpr (T::erange) {
        int to = std::min(r.n, a.m); int from = std::min(a.k, to);
        It x = nth(from), y = nth(to);
        c.erase(x, y);
        r.del(from, to);
        break;
      } else return;
      case IDX: if constexpr (T::index) {
        oc::Box &b = c[T::mkey(a.k)];
        int want = cnt ? r.v[lo] : 0;
        if (b.get() != want) mc::fail("operator[](%d) refers to %d instead of %d", a.k, b.get(), want);
        if (!cnt) r.ins(lo, a.k, 0);
        b.v = r.v[r.lb(a.k)] = (want + 1) & 1;
        break;
      } else return;
      case CLR: c.clear(); r.n = 0; break;
      case SWAP: c.swap(*s->c[1]); std::swap(s->r[0], s->r[1]); break;
      case SWITCH: std::swap(s->c[0], s->c[1]); std::swap(s->r[0], s->r[1]); break;
      case COPY: { C *n = new C(c); delete s->c[1]; s->c[1] = n; s->r[1] = r; break; }
      case ASG: *s->c[1] = c; s->r[1] = r; break;
      case SELF: { C &d = c; c = d; break; }
      case CTOR: { C *n = new C(c.begin(), c.end()); delete s->c[1]; s->c[1] = n; s->r[1] = r; same_key_resync(*n, s->r[1]); break; }
      case RANGE: {
        if (T::multi) for (int k = 0; k < U; k++) if (r.ub(k) - r.lb(k) + s->r[1].ub(k) - s->r[1].lb(k) > dup) return;
        c.insert(s->c[1]->begin(), s->c[1]->end());
        for (int i = 0; i < s->r[1].n; i++) { int k = s->r[1].k[i]; if (T::multi || r.lb(k) == r.ub(k)) r.ins(r.ub(k), k, s->r[1].v[i]); }
        break;
      }
      case BULK: if constexpr (T::bulk) {                 // keys 0, m, 2m, ... k entries
        C *n = new C();
        std::vector<typename T::BV> in; Ref q; q.n = 0;
        for (int i = 0; i < a.k; i++) { int k = i / a.m, vv = T::hasv ? i % a.m : 0; in.push_back(T::val(k, vv)); q.ins(q.n, k, vv); }
        n->bulk_load(in.begin(), in.end());
        delete s->c[0]; s->c[0] = n; r = q;
        break;
      } else return;
    }
    same_key_resync(*s->c[0], s->r[0]); same_key_resync(*s->c[1], s->r[1]);
  }
  void check_one(C &c, Ref &r) {
    T::verify(c);
    if ((int)c.size() != r.n || c.empty() != (r.n == 0)) mc::fail("size() is %d instead of %d", (int)c.size(), r.n);
    const C &cc = c;
    int i = 0;
    for (It it = c.begin(); it != c.end(); ++it, i++) if (i >= r.n || T::k(it) != r.k[i] || T::v(it) != r.v[i]) { mc::fail("entry %d is %d=%d instead of %d=%d", i, T::k(it), T::v(it), i < r.n ? r.k[i] : -1, i < r.n ? r.v[i] : -1); return; }
    if (i != r.n) mc::fail("iteration ended after %d of %d entries", i, r.n);
    i = 0;
    for (CIt it = cc.begin(); it != cc.end(); it++, i++) if (i >= r.n || T::k(it) != r.k[i]) { mc::fail("constant iteration differs at entry %d", i); return; }
    if (i != r.n) mc::fail("constant iteration ended after %d of %d entries", i, r.n);
    i = r.n;
    if (r.n) for (It it = c.end(); it != c.begin();) { --it; i--; if (i < 0 || T::k(it) != r.k[i] || T::v(it) != r.v[i]) { mc::fail("backward iteration differs at entry %d", i); return; } }
    if (i != 0 && r.n) mc::fail("backward iteration ended early");
    i = r.n;
    if (T::rev) {
      for (auto it = c.rbegin(); it != c.rend(); ++it) { i--; if (i < 0 || T::rk(it) != r.k[i]) { mc::fail("reverse iteration differs at entry %d", i); return; } }
      if (i != 0) mc::fail("reverse iteration ended early at %d", i);
      i = r.n;
      for (auto it = cc.rbegin(); it != cc.rend(); it++) { i--; if (i < 0 || T::rk(it) != r.k[i]) { mc::fail("constant reverse iteration differs at entry %d", i); return; } }
      if (i != 0) mc::fail("constant reverse iteration ended early at %d", i);
    }
    // positions found by key
    int pos = 0;
    It at = c.begin();
    for (int k = -1; k <= U; k++) {
      if (!T::negkey && k < 0) continue;
      auto key = T::mkey(k);
      It lo = at;                       // at = first entry not below k
      while (lo != c.end() && T::k(lo) < k) { ++lo; pos++; }
      at = lo;
      It hi = lo; int n = 0;
      while (hi != c.end() && T::k(hi) == k) { ++hi; n++; }
      if (!(c.lower_bound(key) == lo)) mc::fail("lower_bound(%d) is wrong", k);
      if (!(c.upper_bound(key) == hi)) mc::fail("upper_bound(%d) is wrong", k);
      std::pair<It, It> e = c.equal_range(key);
      if (!(e.first == lo) || !(e.second == hi)) mc::fail("equal_range(%d) is wrong", k);
      It f = c.find(key);
      if (n ? (f == c.end() || T::k(f) != k || (T::exact && f != lo)) : f != c.end()) mc::fail("find(%d) is wrong", k);
      if ((int)cc.count(key) != n) mc::fail("count(%d) is %d instead of %d", k, (int)cc.count(key), n);
      CIt cl = cc.lower_bound(key), cu = cc.upper_bound(key), cf = cc.find(key);
      std::pair<CIt, CIt> ce = cc.equal_range(key);
      if (!(cl == CIt(lo)) || !(cu == CIt(hi)) || !(cf == CIt(f)) || !(ce.first == cl) || !(ce.second == cu)) mc::fail("constant lookup of %d differs", k);
      if constexpr (T::eone) if (cc.exists(key) != (n > 0)) mc::fail("exists(%d) is wrong", k);
    }
  }
  void audit() override {
    check_one(*s->c[0], s->r[0]); check_one(*s->c[1], s->r[1]);
    long nodes = T::nodes(*s->c[0]) + T::nodes(*s->c[1]);
    if (mc::live_blocks() != base + 2 + nodes) mc::fail("%ld memory blocks are in use by %ld nodes", mc::live_blocks() - base - 2, nodes);
    long inst = T::insts(*s->c[0], s->r[0].n) + T::insts(*s->c[1], s->r[1].n);
    if (inst >= 0 && instances != ibase + inst) mc::fail("%ld objects are alive instead of %ld", instances - ibase, inst);
    const C &x = *s->c[0], &y = *s->c[1];
    bool eq = s->r[0].n == s->r[1].n; for (int i = 0; eq && i < s->r[0].n; i++) if (s->r[0].k[i] != s->r[1].k[i] || (T::map && s->r[0].v[i] != s->r[1].v[i])) eq = false;
    if ((x == y) != eq || (x != y) == eq) mc::fail("comparison for equality is wrong");
    if constexpr (T::cmp) {
      int c = 0; Ref &p = s->r[0], &q = s->r[1];
      for (int i = 0; !c; i++) { if (i == p.n || i == q.n) { c = p.n < q.n ? -1 : p.n > q.n; break; } c = p.k[i] != q.k[i] ? (p.k[i] < q.k[i] ? -1 : 1) : T::map && p.v[i] != q.v[i] ? (p.v[i] < q.v[i] ? -1 : 1) : 0; }
      if ((x < y) != (c < 0) || (x > y) != (c > 0) || (x <= y) != (c <= 0) || (x >= y) != (c >= 0)) mc::fail("ordering of two containers is wrong");
    }
  }
};

// insertion orders
inline std::vector<int> order(int n, int kind) {
  std::vector<int> o;
  if (kind == 0) for (int i = 0; i < n; i++) o.push_back(i);
  else if (kind == 1) for (int i = n - 1; i >= 0; i--) o.push_back(i);
  else if (kind == 2) { for (int i = 0; i < n; i += 2) o.push_back(i); for (int i = 1; i < n; i += 2) o.push_back(i); }
  else if (kind == 3) { for (int i = 0; (int)o.size() < n; i++) { int k = (n / 2 + (i & 1 ? -(i + 1) / 2 : i / 2)); if (k >= 0 && k < n) o.push_back(k); } }
  else { int st = 7; while (n % st == 0) st += 2; if (n < 8) st = 1; for (int i = 0, x = 0; i < n; i++, x = (x + st) % n) o.push_back(x); }
  return o;
}
}  // namespace oc
