// tlx containers (C28): heaps, radix heap, loser trees, LRU caches, splay tree, ring buffer, vector, string view, counting pointer, arena.
#include "tlx/container/d_ary_heap.hpp"
#include "tlx/container/d_ary_addressable_int_heap.hpp"
#include "tlx/container/radix_heap.hpp"
#include "tlx/container/loser_tree.hpp"
#include "tlx/container/lru_cache.hpp"
#include "tlx/container/splay_tree.hpp"
#include "tlx/container/ring_buffer.hpp"
#include "tlx/container/simple_vector.hpp"
#include "tlx/container/string_view.hpp"
#include "tlx/counting_ptr.hpp"
#include "tlx/stack_allocator.hpp"
#include <string.h>
#include <string_view>
#include "mc.h"
#include "oc.h"
long oc::instances = 0;
using oc::Box;
using std::string;

struct HashM { uint64_t h = 1469598103934665603ull; void operator()(uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; } };
struct Lt { int op, a, b; };

// common: letters, breadth-first over fingerprints
struct Base : mc::SeqConfig {
  std::vector<Lt> let; const char *const *N = nullptr;
  std::string letter_name(int l) override { return std::string(N[let[l].op]) + "(" + std::to_string(let[l].a) + "," + std::to_string(let[l].b) + ")"; }
  bool use_fingerprint() override { return true; }
  void fix(const std::string &nm, int d) { name = nm; depth = d; nletters = let.size(); bfs = true; }
};

// ---------------------------------------------------------------- d-ary heap of values with a tie identity
struct HV { Box k; int tag; };          // ordered by k only
static int gpri[16];                    // external priorities of the addressable heap
struct HCmp { bool operator()(const HV &a, const HV &b) const { return a.k < b.k; } };
struct HGt { bool operator()(const HV &a, const HV &b) const { return b.k < a.k; } };
template <unsigned A, class Cmp> struct DHeap : Base {
  typedef tlx::DAryHeap<HV, A, Cmp> H;
  struct S { H *h[2]; int cnt[8][2]; int n; };
  S *s; int U, M; long ib;
  DHeap(const string &nm, int U, int M, int d, bool build = false) : U(U), M(M) {
    static const char *n[] = {"push", "pop", "extract_top", "clear", "build_heap", "update_all", "copy", "move", "push-top", "push-rvalue", "build_heap-range", "build_heap-move"}; N = n;
    for (int k = 0; k < U; k++) { let.push_back({0, k, 0}); let.push_back({9, k, 0}); }
    for (int o : {1, 2, 3, 5, 6, 7, 8}) let.push_back({o, 0, 0});
    // every arrangement of up to M values
    if (build) let.clear();
    int tot = 1; for (int len = 0; len <= (build ? M : 2); len++, tot *= U) for (int x = 0; x < tot; x++) let.push_back({len % 3 == 0 ? 4 : len % 3 == 1 ? 10 : 11, len, x});
    if (build) for (int len = 2; len <= 4 && len <= M; len++) { int t = 1; for (int i = 0; i < len; i++) t *= U; for (int x = 0; x < t; x++) { let.push_back({4, len, x}); let.push_back({10, len, x}); let.push_back({11, len, x}); } }
    fix(nm, d);
  }
  HV val(int k) { HV v; v.k = Box(k); v.tag = 100 + k; return v; }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); ib = oc::instances; s->h[0] = new H(); }
  uint64_t fingerprint() override { HashM m; H c(*s->h[0]); m(c.size()); const HV *p = c.size() ? &c.top() : nullptr; for (size_t i = 0; i < c.size(); i++) m(p[i].k.get()); return m.h; }
  int best() { Cmp c; int b = -1; for (int k = 0; k < U; k++) if (s->cnt[k][0] && (b < 0 || c(val(k), val(b)))) b = k; return b; }
  void took(const HV &v, const char *w) { int k = v.k.get(); if (k != best() || v.tag != 100 + k) mc::fail("%s gives %d instead of %d", w, k, best()); else { s->cnt[k][0]--; s->n--; } }
  void apply(int l) override {
    Lt a = let[l]; H &h = *s->h[0];
    switch (a.op) {
      case 0: if (s->n >= M) return; { const HV v = val(a.a); h.push(v); } s->cnt[a.a][0]++; s->n++; return;
      case 9: if (s->n >= M) return; h.push(val(a.a)); s->cnt[a.a][0]++; s->n++; return;
      case 1: if (!s->n) return; { HV v = h.top(); h.pop(); took(v, "pop"); } return;
      case 2: if (!s->n) return; { HV v = h.extract_top(); took(v, "extract_top"); } return;
      case 3: h.clear(); for (int k = 0; k < U; k++) s->cnt[k][0] = 0; s->n = 0; return;
      case 5: h.update_all(); return;
      case 6: { H c(h); H d; d.push(val(0)); d = c; if (d.size() != h.size()) mc::fail("copy has another size"); delete s->h[0]; s->h[0] = new H(d); } return;
      case 7: { H c(std::move(h)); H *d = new H(); *d = std::move(c); delete s->h[0]; s->h[0] = d; } return;
      case 8: if (!s->n || s->n >= M) return; { int k = h.top().k.get(); h.push(h.top()); s->cnt[k][0]++; s->n++; } return;
      default: {
        std::vector<HV> v; int x = a.b; for (int k = 0; k < U; k++) s->cnt[k][0] = 0;
        for (int i = 0; i < a.a; i++, x /= U) { v.push_back(val(x % U)); s->cnt[x % U][0]++; }
        s->n = a.a;
        if (a.op == 4) h.build_heap(v); else if (a.op == 10) h.build_heap(v.begin(), v.end()); else h.build_heap(std::move(v));
        return;
      }
    }
  }
  void audit() override {
    H &h = *s->h[0];
    if ((int)h.size() != s->n || h.empty() != (s->n == 0)) mc::fail("size %d instead of %d", (int)h.size(), s->n);
    if (!h.sanity_check()) mc::fail("sanity check fails");
    if (oc::instances - ib != s->n) mc::fail("%ld live elements instead of %d", oc::instances - ib, s->n);
    if (s->n && h.top().k.get() != best()) mc::fail("top is %d instead of %d", h.top().k.get(), best());
    H c(h); int last = -1, cnt[8] = {0}; Cmp cmp;
    while (!c.empty()) { HV v = c.extract_top(); int k = v.k.get(); if (v.tag != 100 + k) mc::fail("a value is torn"); if (last >= 0 && cmp(val(k), val(last))) mc::fail("%d comes after %d", k, last); last = k; if (k < 0 || k >= U) { mc::fail("alien value"); return; } cnt[k]++; }
    for (int k = 0; k < U; k++) if (cnt[k] != s->cnt[k][0]) mc::fail("value %d is present %d times instead of %d", k, cnt[k], s->cnt[k][0]);
  }
};

// ---------------------------------------------------------------- addressable integer heap with external priorities
template <class K> struct PriCmp { const int *pri; explicit PriCmp(const int *p) : pri(p) {} bool operator()(K a, K b) const { return pri[a] < pri[b]; } };
template <class K, unsigned A> struct AHeap : Base {
  typedef tlx::DAryAddressableIntHeap<K, A, PriCmp<K>> H;
  struct S { H *h; bool in[16]; int n; int pri[16]; };
  S *s; int U, P;
  AHeap(const string &nm, int U, int P, int d, bool build = false) : U(U), P(P) {
    static const char *n[] = {"push", "remove", "pop", "extract_top", "clear", "set-priority+update", "priorities+update_all", "copy", "move", "build_heap", "build_heap-range", "build_heap-move", "push-rvalue", "reserve"}; N = n;
    for (int k = 0; k < U; k++) { let.push_back({0, k, 0}); let.push_back({12, k, 0}); let.push_back({1, k, 0}); for (int p = 0; p < P; p++) let.push_back({5, k, p}); }
    for (int o : {2, 3, 4, 7, 8}) let.push_back({o, 0, 0});
    for (int x = 0; x < 4; x++) let.push_back({6, x, 0});
    let.push_back({13, 3, 0}); let.push_back({13, U + 3, 0});
    if (build) { let.clear(); for (int k = 0; k < U; k += 2) let.push_back({0, k, 0}); for (int k = 0; k < U; k++) for (int p = 0; p < P; p++) let.push_back({5, k, p}); for (int x = 0; x < 3; x++) let.push_back({6, x, 0}); }
    for (int m = 0; m < (1 << U); m++) if (build || m == 0 || m == (1 << U) - 1 || m == 5) for (int o = 0; o < 3; o++) let.push_back({9 + o, m, (m + o) & 1});
    fix(nm, d);
  }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); s->h = new H(PriCmp<K>(s->pri)); }
  uint64_t fingerprint() override { HashM m; m(s->h->size()); const K *p = s->n ? &s->h->top() : nullptr; for (int i = 0; i < s->n; i++) m(p[i]); for (int i = 0; i < U; i++) m(s->pri[i]); return m.h; }
  int bestp() { int b = 1000; for (int k = 0; k < U; k++) if (s->in[k] && s->pri[k] < b) b = s->pri[k]; return b; }
  void took(K k, const char *w) { if (k >= U || !s->in[k]) { mc::fail("%s gives %d which is not in the heap", w, (int)k); return; } if (s->pri[k] != bestp()) mc::fail("%s gives a key of priority %d instead of %d", w, s->pri[k], bestp()); s->in[k] = false; s->n--; }
  void apply(int l) override {
    Lt a = let[l]; H &h = *s->h;
    switch (a.op) {
      case 0: { if (s->in[a.a]) return; const K k = a.a; h.push(k); s->in[a.a] = true; s->n++; return; }
      case 12: if (s->in[a.a]) return; h.push(K(a.a)); s->in[a.a] = true; s->n++; return;
      case 1: if (!s->in[a.a]) return; h.remove(a.a); s->in[a.a] = false; s->n--; return;
      case 2: if (!s->n) return; { K k = h.top(); h.pop(); took(k, "pop"); } return;
      case 3: if (!s->n) return; took(h.extract_top(), "extract_top"); return;
      case 4: h.clear(); memset(s->in, 0, sizeof s->in); s->n = 0; return;
      case 5: s->pri[a.a] = a.b; h.update(a.a); if (!s->in[a.a]) { s->in[a.a] = true; s->n++; } return;
      case 6: for (int k = 0; k < U; k++) s->pri[k] = a.a == 0 ? (P - 1) - s->pri[k] : a.a == 1 ? k % P : a.a == 2 ? (U - k) % P : 0; h.update_all(); return;
      case 7: { H c(h); H *d = new H(PriCmp<K>(s->pri)); *d = c; delete s->h; s->h = d; } return;
      case 8: { H c(std::move(h)); H *d = new H(PriCmp<K>(s->pri)); *d = std::move(c); delete s->h; s->h = d; } return;
      case 13: h.reserve(a.a); return;
      default: {
        std::vector<K> v; for (int i = 0; i < U; i++) { int k = a.b ? U - 1 - i : i; if (a.a >> k & 1) v.push_back(k); }
        s->n = v.size(); for (int k = 0; k < U; k++) s->in[k] = a.a >> k & 1;
        if (a.op == 9) h.build_heap(v); else if (a.op == 10) h.build_heap(v.begin(), v.end()); else h.build_heap(std::move(v));
        return;
      }
    }
  }
  void audit() override {
    H &h = *s->h;
    if ((int)h.size() != s->n || h.empty() != (s->n == 0)) mc::fail("size %d instead of %d", (int)h.size(), s->n);
    for (int k = 0; k < U + 4; k++) if (h.contains(k) != (k < U && s->in[k])) mc::fail("contains(%d) is %d", k, (int)h.contains(k));
    if (h.contains(K(-1)) || h.contains(K(-2))) mc::fail("contains a key never inserted");
    if (!h.sanity_check()) mc::fail("sanity check fails");
    if (s->n) { K t = h.top(); if (t >= U || !s->in[t] || s->pri[t] != bestp()) mc::fail("top is key %d", (int)t); }
    H c(h); int last = -1, n = 0; bool seen[16] = {};
    while (!c.empty()) { K k = c.extract_top(); if (k >= U || !s->in[k] || seen[k]) { mc::fail("key %d comes out of the heap", (int)k); return; } seen[k] = true; n++; if (s->pri[k] < last) mc::fail("keys come out in wrong order"); last = s->pri[k]; }
    if (n != s->n) mc::fail("%d keys come out instead of %d", n, s->n);
  }
};

// ---------------------------------------------------------------- radix heap
struct RV { long long key; Box b; };
template <class K, unsigned R> struct RHeap : Base {
  struct KV { K key; Box b; KV(K k) : key(k), b(int(k)) {} KV(K k, int) : key(k), b(int(k)) {} };
  struct X { K operator()(const KV &v) const { return v.key; } };
  typedef tlx::RadixHeap<KV, X, K, R> H;
  struct S { H *h; int cnt[40]; int n; int lim; };          // lim: index of the smallest key that may still be inserted
  S *s; std::vector<K> keys; int M; long ib;
  RHeap(const string &nm, std::vector<K> ks, int M, int d) : keys(ks), M(M) {
    static const char *n[] = {"push", "emplace", "emplace_keyfirst", "push_to_bucket", "pop", "top", "swap_top_bucket", "clear", "copy", "emplace_in_bucket", "peak_top_key"}; N = n;
    for (size_t i = 0; i < keys.size(); i++) { let.push_back({0, (int)i, 0}); if (i % 4 == 1) let.push_back({1, (int)i, 0}); if (i % 4 == 2) let.push_back({2, (int)i, 0}); if (i % 4 == 3) let.push_back({3, (int)i, 0}); if (i % 4 == 0) let.push_back({9, (int)i, 0}); }
    for (int o : {4, 5, 6, 7, 8}) let.push_back({o, 0, 0});
    fix(nm, d);
  }
  std::string letter_name(int l) override { Lt a = let[l]; return std::string(N[a.op]) + (a.op < 4 || a.op == 9 ? "(" + std::to_string((long long)keys[a.a]) + ")" : "()"); }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); ib = oc::instances; s->h = new H(); }
  // the future behaviour depends on contents, limits and where each key is stored; the bucket of each key is observable
  uint64_t fingerprint() override { HashM m; m(s->lim); for (size_t i = 0; i < keys.size(); i++) m(s->cnt[i] * 1000 + (int(i) >= s->lim ? s->h->get_bucket_key(keys[i]) : 999)); return m.h; }
  int mini() { for (size_t i = 0; i < keys.size(); i++) if (s->cnt[i]) return i; return -1; }
  void apply(int l) override {
    Lt a = let[l]; H &h = *s->h;
    switch (a.op) {
      case 0: case 1: case 2: case 3: case 9: {
        if (s->n >= M || a.a < s->lim) return;
        K k = keys[a.a]; size_t want = h.get_bucket_key(k), got = want;
        if (a.op == 0) got = h.push(KV(k)); else if (a.op == 1) got = h.emplace(k, k, 7); else if (a.op == 2) got = h.emplace_keyfirst(k); else if (a.op == 3) h.push_to_bucket(want, KV(k)); else h.emplace_in_bucket(want, k);
        if (got != want) mc::fail("bucket %zu instead of %zu", got, want);
        s->cnt[a.a]++; s->n++; return;
      }
      case 4: if (!s->n) return; { int i = mini(); h.pop(); s->cnt[i]--; s->n--; s->lim = i; } return;
      case 5: if (!s->n) return; { int i = mini(); const KV &v = h.top(); if (v.key != keys[i] || v.b.get() != int(keys[i])) mc::fail("top is %lld instead of %lld", (long long)v.key, (long long)keys[i]); s->lim = i; } return;
      case 6: if (!s->n) return; {
        int i = mini(); typename H::bucket_data_type v; h.swap_top_bucket(v);
        if (v.empty()) mc::fail("swap_top_bucket gives an empty bucket");
        for (auto &x : v) if (x.key != keys[i] || x.b.get() != int(keys[i])) mc::fail("swap_top_bucket gives %lld, but %lld is the smallest", (long long)x.key, (long long)keys[i]);
        if ((int)v.size() != s->cnt[i]) mc::fail("swap_top_bucket gives %d of %d smallest elements", (int)v.size(), s->cnt[i]);
        s->n -= s->cnt[i]; s->cnt[i] = 0; s->lim = i; } return;
      case 7: h.clear(); memset(s->cnt, 0, sizeof s->cnt); s->n = 0; s->lim = 0; return;
      case 8: { H c(h); H *d = new H(); *d = std::move(c); delete s->h; s->h = d; } return;
    }
  }
  void audit() override {
    H &h = *s->h;
    if ((int)h.size() != s->n || h.empty() != (s->n == 0)) mc::fail("size %d instead of %d", (int)h.size(), s->n);
    if (oc::instances - ib != s->n) mc::fail("%ld live elements instead of %d", oc::instances - ib, s->n);
    if (s->n && h.peak_top_key() != keys[mini()]) mc::fail("peak_top_key is %lld instead of %lld", (long long)h.peak_top_key(), (long long)keys[mini()]);
    H c(h); int cnt[40]; memcpy(cnt, s->cnt, sizeof cnt); int last = 0;
    for (int i = 0; i < s->n; i++) {
      if (c.empty()) { mc::fail("empty too early"); return; }
      while (last < (int)keys.size() && !cnt[last]) last++;
      if (c.peak_top_key() != keys[last]) mc::fail("peak_top_key is %lld instead of %lld while emptying", (long long)c.peak_top_key(), (long long)keys[last]);
      const KV &v = c.top();
      if (v.key != keys[last] || v.b.get() != int(v.key)) { mc::fail("%lld comes out instead of %lld", (long long)v.key, (long long)keys[last]); return; }
      cnt[last]--; c.pop();
    }
    if (!c.empty()) mc::fail("elements are left");
  }
};
// buckets are ordered like the keys, bounds fit
template <class K, unsigned R> struct RBuckets : Base {
  typedef tlx::radix_heap_detail::BucketComputation<R, K> B;
  std::vector<K> v;
  RBuckets(const string &nm, std::vector<K> v) : v(v) { static const char *n[] = {"limit"}; N = n; for (size_t i = 0; i < v.size(); i++) let.push_back({0, (int)i, 0}); fix(nm, 1); bfs = false; }
  bool use_fingerprint() override { return false; }
  void apply(int l) override {
    B b; K lim = v[let[l].a]; size_t last = 0;
    for (K x : v) if (x >= lim) {
      size_t i = b(x, lim);
      if (i >= B::num_buckets) { mc::fail("key %llu with limit %llu: bucket %zu of %zu", (unsigned long long)x, (unsigned long long)lim, i, (size_t)B::num_buckets); return; }
      if (i < last) { mc::fail("key %llu with limit %llu: bucket %zu, but a smaller key has bucket %zu", (unsigned long long)x, (unsigned long long)lim, i, last); return; }
      last = i;
      if (lim == 0) { if (b.lower_bound(i) > x || b.upper_bound(i) < x) mc::fail("bucket %zu of key %llu has the bounds %llu and %llu", i, (unsigned long long)x, (unsigned long long)b.lower_bound(i), (unsigned long long)b.upper_bound(i)); }
    }
  }
};
template <size_t Z> struct BitArr : Base {
  struct S { tlx::radix_heap_detail::BitArray<Z> *b; std::vector<char> *on; };
  S *s; std::vector<int> at;
  BitArr(const string &nm, std::vector<int> at, int d) : at(at) { static const char *n[] = {"set", "clear", "clear_all"}; N = n; for (size_t i = 0; i < at.size(); i++) { let.push_back({0, at[i], 0}); let.push_back({1, at[i], 0}); } let.push_back({2, 0, 0}); fix(nm, d); }
  void setup() override { s = new S(); s->b = new tlx::radix_heap_detail::BitArray<Z>(); s->on = new std::vector<char>(Z); }
  uint64_t fingerprint() override { HashM m; for (int i : at) m((*s->on)[i]); return m.h; }
  void apply(int l) override { Lt a = let[l]; if (a.op == 0) { s->b->set_bit(a.a); (*s->on)[a.a] = 1; } else if (a.op == 1) { s->b->clear_bit(a.a); (*s->on)[a.a] = 0; } else { s->b->clear_all(); for (auto &c : *s->on) c = 0; } }
  void audit() override {
    int first = -1; for (size_t i = 0; i < Z; i++) if ((*s->on)[i]) { first = i; break; }
    if (s->b->empty() != (first < 0)) mc::fail("empty() is %d", (int)s->b->empty());
    if (first >= 0 && (int)s->b->find_lsb() != first) mc::fail("find_lsb() is %d instead of %d", (int)s->b->find_lsb(), first);
    for (size_t i = 0; i < Z; i++) if (s->b->is_set(i) != (bool)(*s->on)[i]) mc::fail("bit %zu is wrong", i);
  }
};

// ---------------------------------------------------------------- loser trees
struct Big { long k; long pad[3]; bool operator<(const Big &o) const { return k < o.k; } };     // selects the pointer variant
template <class T> T lval(int k);
template <> int lval<int>(int k) { return k; }
template <> Big lval<Big>(int k) { return {k, {k, k, k}}; }
template <class Tree, class V, bool Stable, bool Guarded, bool Copy> struct LTree : Base {
  struct S { Tree *t; int key[16]; bool sup[16]; int ns, nsup; V *slot[16]; V *sent; std::vector<int> *hist; };
  S *s; int k, U;
  bool all;
  LTree(const string &nm, int k, int U, int d, bool all = false) : k(k), U(U), all(all) {
    static const char *n[] = {"next", "end-of-source"}; N = n;
    for (int i = 0; i < U; i++) let.push_back({0, i, 0});
    if (Guarded) let.push_back({1, 0, 0});
    fix(nm, d); if (all) bfs = false;
  }
  void setup() override {
    s = new S(); memset(s, 0, sizeof *s);
    if constexpr (Guarded) s->t = new Tree(k); else { s->sent = new V(lval<V>(U)); s->t = new Tree(k, *s->sent); }
  }
  bool use_fingerprint() override { return !all; }
  // each source's current key and whether it ended determine the winner; the losers' places are a function of the history, so it is part of the state:
  // two histories are merged only if they left the same losers everywhere, which the order of the coming winners reveals up to ties
  uint64_t fingerprint() override { HashM m; m(s->ns); for (int i = 0; i < s->ns; i++) m(s->sup[i] ? 99 : s->key[i]); if (s->ns == k && s->nsup < k) m(s->t->min_source()); return m.h; }
  const V *put(int src, int key) { if (s->slot[src]) delete s->slot[src]; s->slot[src] = new V(lval<V>(key)); return s->slot[src]; }      // the previous element is gone: no pointer to it may be used any more
  int best() { int b = -1; for (int i = 0; i < k; i++) if (!s->sup[i] && (b < 0 || s->key[i] < s->key[b])) b = i; return b; }
  void apply(int l) override {
    Lt a = let[l];
    if (s->ns < k) {                    // starting phase
      int src = s->ns;
      if (a.op == 0) { s->t->insert_start(put(src, a.a), src, false); s->key[src] = a.a; } else { s->t->insert_start(nullptr, src, true); s->sup[src] = true; s->nsup++; }
      s->ns++;
      if (s->ns == k) s->t->init();
      return;
    }
    if (s->nsup == k) return;
    int m = s->t->min_source();
    if (m < 0 || m >= k) return;        // reported by audit
    if (a.op == 0) { const V *p = put(m, a.a); s->t->delete_min_insert(p, false); s->key[m] = a.a; } else { delete s->slot[m]; s->slot[m] = nullptr; s->t->delete_min_insert(nullptr, true); s->sup[m] = true; s->nsup++; }
  }
  void audit() override {
    if (s->ns < k || s->nsup == k) { if (s->ns == k && !Copy && s->t->min_source() != Tree::invalid_) mc::fail("all sources ended, but the winner is %d", (int)s->t->min_source()); return; }
    int m = s->t->min_source(), b = best();
    if (m < 0 || m >= k || s->sup[m]) { mc::fail("the winner is source %d, which is not there", m); return; }
    if (s->key[m] != s->key[b]) mc::fail("the winner is source %d with key %d, but source %d has key %d", m, s->key[m], b, s->key[b]);
    if (Stable && m != b) mc::fail("the winner is source %d, but source %d has the same key", m, b);
  }
};

// ---------------------------------------------------------------- LRU caches
struct LKey { Box b; LKey(int k) : b(k) {} bool operator==(const LKey &o) const { return b == o.b; } };
namespace std { template <> struct hash<LKey> { size_t operator()(const LKey &k) const { return k.b.get() % 2; } }; }
template <bool Map> struct LRU : Base {
  typedef typename std::conditional<Map, tlx::LruCacheMap<LKey, Box>, tlx::LruCacheSet<LKey>>::type C;
  struct S { C *c; int k[16], v[16]; int n; };              // most recently used first
  S *s; int U; long ib;
  LRU(const string &nm, int U, int d) : U(U) {
    static const char *n[] = {"put", "touch", "touch_if_exists", "erase", "erase_if_exists", "pop", "clear", "get", "get_touch", "move", "put-own-value", "copy"}; N = n;
    for (int k = 0; k < U; k++) { for (int o : {0, 1, 2, 3, 4}) let.push_back({o, k, 0}); if (Map) { let.push_back({0, k, 1}); let.push_back({7, k, 0}); let.push_back({8, k, 0}); for (int j = 0; j < U; j++) let.push_back({10, k, j}); } }
    for (int o : {5, 6, 9, 11}) let.push_back({o, 0, 0});
    fix(nm, d);
  }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); ib = oc::instances; s->c = new C(); }
  uint64_t fingerprint() override { HashM m; for (int i = 0; i < s->n; i++) m(s->k[i] * 4 + s->v[i] + 1); return m.h; }
  int at(int k) { for (int i = 0; i < s->n; i++) if (s->k[i] == k) return i; return -1; }
  void del(int i) { for (; i + 1 < s->n; i++) { s->k[i] = s->k[i + 1]; s->v[i] = s->v[i + 1]; } s->n--; }
  void front(int k, int v) { int i = at(k); if (i >= 0) del(i); for (i = s->n++; i > 0; i--) { s->k[i] = s->k[i - 1]; s->v[i] = s->v[i - 1]; } s->k[0] = k; s->v[0] = v; }
  void apply(int l) override {
    Lt a = let[l]; C &c = *s->c; int i = at(a.a);
    switch (a.op) {
      case 0: if constexpr (Map) c.put(LKey(a.a), Box(a.b)); else c.put(LKey(a.a)); front(a.a, a.b); return;
      case 1: case 3: case 7: case 8: {
        bool threw = false; int got = -1;
        try {
          if (a.op == 1) c.touch(LKey(a.a)); else if (a.op == 3) c.erase(LKey(a.a));
          else if constexpr (Map) got = a.op == 7 ? c.get(LKey(a.a)).get() : c.get_touch(LKey(a.a)).get();
        } catch (const std::range_error &) { threw = true; }
        if (threw != (i < 0)) mc::fail("%s of key %d %s", N[a.op], a.a, threw ? "threw although it is present" : "did not throw although it is absent");
        if (i < 0) return;
        if (a.op >= 7 && got != s->v[i]) mc::fail("get gives %d instead of %d", got, s->v[i]);
        if (a.op == 3) del(i); else if (a.op != 7) front(a.a, s->v[i]);
        return;
      }
      case 2: if (c.touch_if_exists(LKey(a.a)) != (i >= 0)) mc::fail("touch_if_exists is wrong"); if (i >= 0) front(a.a, s->v[i]); return;
      case 4: if (c.erase_if_exists(LKey(a.a)) != (i >= 0)) mc::fail("erase_if_exists is wrong"); if (i >= 0) del(i); return;
      case 5: if (!s->n) return; {
        int k, v = 0; if constexpr (Map) { auto p = c.pop(); k = p.first.b.get(); v = p.second.get(); } else k = c.pop().b.get();
        if (k != s->k[s->n - 1] || v != s->v[s->n - 1]) mc::fail("pop gives key %d instead of %d", k, s->k[s->n - 1]); s->n--; } return;
      case 6: c.clear(); s->n = 0; return;
      case 9: { C d(std::move(c)); C *e = new C(); *e = std::move(d); delete s->c; s->c = e; } return;
      case 11: { C d(c); C *e = new C(); if constexpr (Map) e->put(LKey(0), Box(1)); else e->put(LKey(0)); *e = d; delete s->c; s->c = e; } return;
      case 10: if constexpr (Map) { int j = at(a.b); if (j < 0) return; int v = s->v[j]; c.put(LKey(a.a), c.get(LKey(a.b))); front(a.a, v); } return;
    }
  }
  void audit() override {
    C &c = *s->c;
    if ((int)c.size() != s->n) mc::fail("size %d instead of %d", (int)c.size(), s->n);
    for (int k = 0; k < U; k++) { if (c.exists(LKey(k)) != (at(k) >= 0)) mc::fail("exists(%d) is wrong", k); if constexpr (Map) if (at(k) >= 0 && c.get(LKey(k)).get() != s->v[at(k)]) mc::fail("get(%d) is %d instead of %d", k, c.get(LKey(k)).get(), s->v[at(k)]); }
    if (oc::instances - ib != s->n * (Map ? 3 : 2)) mc::fail("%ld live keys and values for %d entries", oc::instances - ib, s->n);
  }
};

// ---------------------------------------------------------------- splay tree
template <bool Dup> struct Splay : Base {
  struct KC { bool operator()(const Box &a, const Box &b) const { return a < b; } };
  typedef tlx::SplayTree<Box, KC, Dup> T;
  struct S { T *t; int cnt[16]; int n; };
  S *s; int U, M; long ib, bb;
  Splay(const string &nm, int U, int M, int d) : U(U), M(M) {
    static const char *n[] = {"insert", "erase", "exists", "find", "erase-node", "clear", "insert-own"}; N = n;
    for (int k = 0; k < U; k++) for (int o : {0, 1, 2, 3, 4, 6}) let.push_back({o, k, 0});
    let.push_back({5, 0, 0}); let.push_back({2, U, 0}); let.push_back({2, -1, 0});
    fix(nm, d);
  }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); ib = oc::instances; s->t = new T(); bb = mc::live_blocks(); }
  static uint64_t shape(const typename T::Node *n) { if (!n) return 1; return (shape(n->left) * 3 + shape(n->right) * 7 + n->key.get() * 1000003 + 11) * 0x9E3779B97F4A7C15ull; }
  // the shape is reachable through the node a search returns: the root
  uint64_t fingerprint() override { return s->n ? shape(*(typename T::Node **)(void *)s->t) : 7; }
  void apply(int l) override {
    Lt a = let[l]; T &t = *s->t; Box k(a.a); int c = a.a >= 0 && a.a < U ? s->cnt[a.a] : 0;
    switch (a.op) {
      case 0: { if (s->n >= M) return; bool r = t.insert(k), w = Dup || !c; if (r != w) mc::fail("insert(%d) returned %d", a.a, (int)r); if (w) { s->cnt[a.a]++; s->n++; } return; }
      case 6: { if (!c || s->n >= M) return; auto *n = t.find(k); if (!n || n->key.get() != a.a) { mc::fail("find(%d) does not find it", a.a); return; } bool r = t.insert(n->key); if (r != Dup) mc::fail("insert of its own key returned %d", (int)r); if (Dup) { s->cnt[a.a]++; s->n++; } return; }
      case 1: { bool r = t.erase(k); if (r != (c > 0)) mc::fail("erase(%d) returned %d", a.a, (int)r); if (c) { s->cnt[a.a]--; s->n--; } return; }
      case 2: { bool r = t.exists(k); if (r != (c > 0)) mc::fail("exists(%d) is %d", a.a, (int)r); return; }
      case 3: case 4: {
        auto *n = t.find(k);
        if (!s->n) { if (n) mc::fail("find in an empty tree gives a node"); return; }
        if (!n) { if (c) mc::fail("find(%d) gives nothing", a.a); return; }
        int g = n->key.get();
        if (c ? g != a.a : (g < 0 || g >= U || !s->cnt[g])) { mc::fail("find(%d) gives %d", a.a, g); return; }
        if (!c) for (int x = std::min(g, a.a) + 1; x < std::max(g, a.a); x++) if (s->cnt[x]) mc::fail("find(%d) gives %d although %d is nearer", a.a, g, x);
        if (a.op == 4) { if (!t.erase(n)) mc::fail("erase of a node returned false"); s->cnt[g]--; s->n--; }
        return;
      }
      case 5: t.clear(); memset(s->cnt, 0, sizeof s->cnt); s->n = 0; return;
    }
  }
  void audit() override {
    T &t = *s->t;
    if ((int)t.size() != s->n || t.empty() != (s->n == 0)) mc::fail("size %d instead of %d", (int)t.size(), s->n);
    if (!Dup && !t.check()) mc::fail("check() fails");
    if (oc::instances - ib != s->n) mc::fail("%ld live keys for %d entries", oc::instances - ib, s->n);
    if (mc::live_blocks() - bb != s->n) mc::fail("%ld live nodes for %d entries", mc::live_blocks() - bb, s->n);
    int i = 0, j = 0, n = 0; bool bad = false;
    t.traverse_preorder([&](const Box &b) { while (i < U && j >= s->cnt[i]) { i++; j = 0; } if (i >= U || b.get() != i) bad = true; else j++; n++; });
    if (bad || n != s->n) mc::fail("the traversal visits %d keys, wrong or not in order", n);
  }
};

// ---------------------------------------------------------------- ring buffer
struct Ring : Base {
  typedef tlx::RingBuffer<Box> R;
  struct S { R *r[2]; int v[2][16]; int n[2]; int cap[2]; bool dead[2]; };   // dead: not allocated
  S *s; std::vector<int> caps; long ib;
  Ring(const string &nm, std::vector<int> caps, int d) : caps(caps) {
    static const char *n[] = {"push_back", "push_front", "emplace_back", "emplace_front", "pop_back", "pop_front", "clear", "copy", "assign", "move", "move-assign", "exchange", "deallocate+allocate", "move_to", "copy_to", "push-own", "deallocate", "allocate"}; N = n;
    for (int v = 0; v < 2; v++) for (int o = 0; o < 4; o++) let.push_back({o, v, 0});
    for (int o : {4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16}) let.push_back({o, 0, 0});
    for (int c : caps) { let.push_back({12, c, 0}); let.push_back({17, c, 0}); }
    fix(nm, d);
  }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); ib = oc::instances; s->r[0] = new R(caps[0]); s->cap[0] = caps[0]; s->r[1] = new R(caps.back()); s->cap[1] = caps.back(); }
  // position of the elements inside the array: address of the first element relative to the block start is not observable; count pushes instead
  uint64_t fingerprint() override {
    HashM m;
    for (int b = 0; b < 2; b++) { m(s->cap[b] * 2 + s->dead[b]); m(s->n[b]); for (int i = 0; i < s->n[b]; i++) m(s->v[b][i]); struct Raw { size_t max; size_t pad[7]; }; const size_t *w = (const size_t *)(const void *)s->r[b]; for (size_t i = 0; i < sizeof(R) / 8; i++) if (w[i] < 4096) m(w[i] * 16 + i); }
    return m.h;
  }
  void apply(int l) override {
    Lt a = let[l]; R *&r = s->r[0]; int &n = s->n[0]; int *v = s->v[0];
    auto front = [&](int x) { for (int i = n; i > 0; i--) v[i] = v[i - 1]; v[0] = x; n++; };
    bool dead = s->dead[0]; bool full = dead || n >= s->cap[0];
    switch (a.op) {
      case 0: if (full) return; { Box b(a.a); r->push_back(b); } v[n++] = a.a; return;
      case 1: if (full) return; { Box b(a.a); r->push_front(b); } front(a.a); return;
      case 2: if (full) return; if (a.a) r->push_back(Box(a.a)); else r->emplace_back(a.a); v[n++] = a.a; return;
      case 3: if (full) return; if (a.a) r->push_front(Box(a.a)); else r->emplace_front(a.a); front(a.a); return;
      case 4: if (!n) return; r->pop_back(); n--; return;
      case 5: if (!n) return; r->pop_front(); for (int i = 0; i + 1 < n; i++) v[i] = v[i + 1]; n--; return;
      case 6: r->clear(); n = 0; return;
      case 7: if (dead) return; { R *c = new R(*r); delete r; r = c; } return;
      case 8: if (s->dead[1]) return; *r = *s->r[1]; n = s->n[1]; memcpy(v, s->v[1], sizeof s->v[1]); s->cap[0] = s->cap[1]; s->dead[0] = false; return;
      case 9: if (dead) return; { R *c = new R(std::move(*r)); if (r->size() != 0) mc::fail("moved-from buffer is not empty"); delete r; r = c; } return;
      case 10: if (dead || s->dead[1]) return; *s->r[1] = std::move(*r); s->n[1] = n; memcpy(s->v[1], v, sizeof s->v[1]); s->cap[1] = s->cap[0]; n = 0; s->dead[0] = true; return;
      case 11: std::swap(s->r[0], s->r[1]); std::swap(s->n[0], s->n[1]); std::swap(s->cap[0], s->cap[1]); std::swap(s->dead[0], s->dead[1]); { int t[16]; memcpy(t, s->v[0], sizeof t); memcpy(s->v[0], s->v[1], sizeof t); memcpy(s->v[1], t, sizeof t); } return;
      case 12: r->deallocate(); r->allocate(a.a); s->cap[0] = a.a; s->dead[0] = false; n = 0; return;
      case 16: r->deallocate(); s->dead[0] = true; n = 0; return;
      case 17: if (!dead) return; r->allocate(a.a); s->cap[0] = a.a; s->dead[0] = false; return;
      case 13: { std::vector<Box> o; r->move_to(&o); if ((int)o.size() != n) mc::fail("move_to gives %d elements", (int)o.size()); else for (int i = 0; i < n; i++) if (o[i].get() != v[i]) mc::fail("move_to gives wrong elements"); n = 0; } return;
      case 14: { std::vector<Box> o; r->copy_to(&o); if ((int)o.size() != n) mc::fail("copy_to gives %d elements", (int)o.size()); else for (int i = 0; i < n; i++) if (o[i].get() != v[i]) mc::fail("copy_to gives wrong elements"); } return;
      case 15: if (full || !n) return; { int x = v[0], y = v[n - 1]; if (x == 0) { r->push_back(r->front()); v[n++] = x; } else { r->push_front(r->back()); front(y); } } return;
    }
  }
  void audit() override {
    int all = 0;
    for (int b = 0; b < 2; b++) {
      R &r = *s->r[b]; const R &cr = r; int n = s->n[b]; all += n;
      if ((int)r.size() != n || r.empty() != (n == 0)) mc::fail("size %d instead of %d", (int)r.size(), n);
      if (!s->dead[b] && ((int)r.max_size() != s->cap[b] || (int)r.capacity() <= s->cap[b])) mc::fail("max_size %d capacity %d for %d", (int)r.max_size(), (int)r.capacity(), s->cap[b]);
      for (int i = 0; i < n; i++) if (r[i].get() != s->v[b][i] || &r[i] != &cr[i]) mc::fail("element %d is %d instead of %d", i, r[i].get(), s->v[b][i]);
      if (n && (r.front().get() != s->v[b][0] || r.back().get() != s->v[b][n - 1] || cr.front().get() != s->v[b][0] || cr.back().get() != s->v[b][n - 1])) mc::fail("front or back is wrong");
    }
    if (oc::instances - ib != all) mc::fail("%ld live elements instead of %d", oc::instances - ib, all);
  }
};

// ---------------------------------------------------------------- simple vector
struct VBox : Box { VBox() : Box(0) {} explicit VBox(int x) : Box(x) {} };
template <class E, tlx::SimpleVectorMode Mode> struct SVec : Base {
  typedef tlx::SimpleVector<E, Mode> V;
  static const bool normal = Mode == tlx::SimpleVectorMode::Normal, cls = !std::is_trivial<E>::value;
  struct S { V *v[2]; int e[2][8]; int n[2]; };
  S *s; int M; long ib, bb;
  static int gv(const int &x) { return x; }
  static int gv(const VBox &x) { return x.get(); }
  SVec(const string &nm, int M, int d) : M(M) {
    static const char *n[] = {"resize", "set", "fill", "swap", "destroy", "move", "move-assign", "new", "fill-own"}; N = n;
    for (int k = 0; k <= M; k++) { if (normal || !cls) let.push_back({0, k, 0}); let.push_back({7, k, 0}); }
    for (int k = 0; k < M; k++) { let.push_back({1, k, 1}); let.push_back({1, k, 2}); let.push_back({8, k, 0}); }
    let.push_back({2, 0, 0}); let.push_back({2, 1, 0});
    for (int o : {3, 4, 5, 6}) let.push_back({o, 0, 0});
    fix(nm, d);
  }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); ib = oc::instances; s->v[0] = new V(); s->v[1] = new V(); bb = mc::live_blocks(); }
  uint64_t fingerprint() override { HashM m; for (int b = 0; b < 2; b++) { m(s->n[b]); m(s->v[b]->data() != nullptr); for (int i = 0; i < s->n[b]; i++) m(s->e[b][i]); } return m.h; }
  // fresh elements: the class initializes itself; plain ones are set here
  void fresh(int from) { V &v = *s->v[0]; for (int i = from; i < s->n[0]; i++) { if (cls && normal) { } else new (&v[i]) E(0); s->e[0][i] = 0; } }
  void apply(int l) override {
    Lt a = let[l]; V &v = *s->v[0]; int n = s->n[0]; int *e = s->e[0];
    switch (a.op) {
      case 0: { v.resize(a.a); s->n[0] = a.a; for (int i = 0; i < std::min(n, a.a); i++) if (gv(v[i]) != e[i]) mc::fail("resize changed element %d", i); fresh(std::min(n, a.a)); return; }
      case 1: if (a.a >= n) return; v[a.a] = E(a.b); e[a.a] = a.b; return;
      case 2: v.fill(E(a.a)); for (int i = 0; i < n; i++) e[i] = a.a; return;
      case 3: v.swap(*s->v[1]); std::swap(s->n[0], s->n[1]); for (int i = 0; i < 8; i++) std::swap(s->e[0][i], s->e[1][i]); return;
      case 4: v.destroy(); s->n[0] = 0; return;
      case 5: { V *c = new V(std::move(v)); if (v.size() || v.data()) mc::fail("moved-from vector is not empty"); delete s->v[0]; s->v[0] = c; return; }
      case 6: *s->v[1] = std::move(v); s->n[1] = n; memcpy(s->e[1], e, sizeof s->e[1]); s->n[0] = 0; { V &x = *s->v[1]; x = std::move(x); } return;
      case 7: delete s->v[0]; s->v[0] = new V(a.a); s->n[0] = a.a; fresh(0); return;
      case 8: if (a.a >= n) return; { int x = e[a.a]; v.fill(v[a.a]); for (int i = 0; i < n; i++) e[i] = x; } return;
    }
  }
  void audit() override {
    int all = 0, blocks = 0;
    for (int b = 0; b < 2; b++) {
      V &v = *s->v[b]; const V &c = v; int n = s->n[b]; all += n; blocks += v.data() != nullptr;
      if ((int)v.size() != n || v.end() - v.begin() != n || c.cend() - c.cbegin() != n || c.end() != v.end()) mc::fail("size %d instead of %d", (int)v.size(), n);
      for (int i = 0; i < n; i++) if (gv(v[i]) != s->e[b][i] || &v.at(i) != &c[i] || &c.at(i) != v.data() + i) mc::fail("element %d is %d instead of %d", i, gv(v[i]), s->e[b][i]);
      if (n && (&v.front() != v.data() || &c.front() != v.data() || &v.back() != v.data() + n - 1 || &c.back() != &v.back())) mc::fail("front or back is wrong");
    }
    if (cls && oc::instances - ib != all) mc::fail("%ld live elements instead of %d", oc::instances - ib, all);
    if (mc::live_blocks() - bb != blocks) mc::fail("%ld blocks for %d arrays", mc::live_blocks() - bb, blocks);
  }
};

// ---------------------------------------------------------------- string view against std::string_view
struct SView : Base {
  std::vector<std::string> w; bool full;
  SView(const string &nm, std::string alpha, int maxlen, bool full) : full(full) {
    static const char *n[] = {"string"}; N = n; w.push_back("");
    for (size_t i = 0; i < w.size(); i++) if ((int)w[i].size() < maxlen) for (char c : alpha) w.push_back(w[i] + c);
    for (size_t i = 0; i < w.size(); i++) let.push_back({0, (int)i, 0});
    fix(nm, 1); bfs = false;
  }
  bool use_fingerprint() override { return false; }
  static string show(const string &x) { string o = "\""; char b[8]; for (unsigned char c : x) { if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += c; } return o + "\""; }
  std::string letter_name(int l) override { return show(w[let[l].a]); }
  static int sg(int x) { return x < 0 ? -1 : x > 0; }
  void apply(int l) override {
    const string &a = w[let[l].a]; typedef tlx::StringView T; typedef std::string_view V;
    char *buf = (char *)malloc(a.size() + 1); memcpy(buf, a.data(), a.size());   // not terminated: reading past the view is reading past the data
    T t(buf, a.size()); V v(a);
    buf = (char *)realloc(buf, a.size() ? a.size() : 1); t = T(buf, a.size());
#define CK(name, x, y) do { auto x_ = (x); auto y_ = (y); if (x_ != y_) { mc::fail("%s of %s and %s at %zu: %lld instead of %lld", name, show(a).c_str(), show(b).c_str(), p, (long long)x_, (long long)y_); return; } } while (0)
    { const string b; size_t p = 0;
      CK("size", t.size(), v.size()); CK("length", t.length(), v.size()); CK("empty", t.empty(), v.empty());
      CK("to_string", t.to_string() == a, true); CK("string()", std::string(t) == a, true); CK("iteration", std::string(t.begin(), t.end()) == a, true); CK("reverse iteration", std::string(t.rbegin(), t.rend()) == std::string(v.rbegin(), v.rend()), true); CK("c-iteration", std::string(t.crbegin(), t.crend()) == std::string(v.rbegin(), v.rend()) && std::string(t.cbegin(), t.cend()) == a, true);
      for (p = 0; p <= a.size() + 1; p++) {
        bool th = false; try { char c = t.at(p); CK("at", c, a[p]); } catch (const std::out_of_range &) { th = true; } CK("at throws", th, p >= a.size());
        if (p < a.size()) { CK("[]", t[p], a[p]); CK("front", t.front(), a.front()); CK("back", t.back(), a.back()); }
        T x = t, y = t; x.remove_prefix(p); y.remove_suffix(p); size_t q = std::min(p, a.size());
        CK("remove_prefix", x.to_string() == a.substr(q), true); CK("remove_suffix", y.to_string() == a.substr(0, a.size() - q), true);
        x.swap(y); CK("swap", y.to_string() == a.substr(q) && x.to_string() == a.substr(0, a.size() - q), true); x.clear(); CK("clear", x.empty(), true);
        for (size_t n = 0; n <= a.size() + 1; n++) {
          th = false; try { CK("substr", t.substr(p, n).to_string() == a.substr(p, n), true); } catch (const std::out_of_range &) { th = true; } CK("substr throws", th, p > a.size());
          th = false; try { char o[16], o2[16]; memset(o, 'Z', 16); memset(o2, 'Z', 16); size_t r = t.copy(o, n, p), r2 = v.copy(o2, n, p); CK("copy", r, r2); CK("copied bytes", memcmp(o, o2, 16), 0); } catch (const std::out_of_range &) { th = true; } CK("copy throws", th, p > a.size());
        }
      }
      // substrings given by string iterators
      const string &ca = a; for (size_t i = 0; i < ca.size(); i++) for (size_t j = i; j <= ca.size(); j++) { p = i; CK("iterator pair", T(ca.begin() + i, ca.begin() + j).to_string() == ca.substr(i, j - i), true); CK("iterator and length", T(ca.begin() + i, j - i).to_string() == ca.substr(i, j - i), true); }
      if (a.find('\0') == string::npos) { CK("C string", T(a.c_str()).to_string() == a, true); }
      CK("hash", std::hash<T>()(t) == std::hash<T>()(T(a)), true);
    }
    for (const string &b : w) {
      size_t p = 0; T u(b); V x(b);
      int want = sg(v.compare(x));
      CK("compare", sg(t.compare(u)), want); CK("==", t == u, want == 0); CK("!=", t != u, want != 0); CK("<", t < u, want < 0); CK(">", t > u, want > 0); CK("<=", t <= u, want <= 0); CK(">=", t >= u, want >= 0);
      CK("== string", t == b, want == 0); CK("!= string", t != b, want != 0); CK("< string", t < b, want < 0); CK("> string", t > b, want > 0); CK("<= string", t <= b, want <= 0); CK(">= string", t >= b, want >= 0);
      CK("string ==", b == t, want == 0); CK("string !=", b != t, want != 0); CK("string <", b < t, want > 0); CK("string >", b > t, want < 0); CK("string <=", b <= t, want >= 0); CK("string >=", b >= t, want <= 0);
      bool c = b.find('\0') == string::npos; const char *z = b.c_str();
      if (c) { CK("compare C", sg(t.compare(z)), want); CK("== C", t == z, want == 0); CK("!= C", t != z, want != 0); CK("< C", t < z, want < 0); CK("> C", t > z, want > 0); CK("<= C", t <= z, want <= 0); CK(">= C", t >= z, want >= 0);
               CK("C ==", z == t, want == 0); CK("C !=", z != t, want != 0); CK("C <", z < t, want > 0); CK("C >", z > t, want < 0); CK("C <=", z <= t, want >= 0); CK("C >=", z >= t, want <= 0); }
      CK("starts_with", t.starts_with(u), a.substr(0, b.size()) == b && a.size() >= b.size()); CK("ends_with", t.ends_with(u), a.size() >= b.size() && a.substr(a.size() - b.size()) == b);
      CK("find", t.find(u), v.find(x)); CK("rfind", t.rfind(u), v.rfind(x)); CK("find_first_of", t.find_first_of(u), v.find_first_of(x)); CK("find_last_of", t.find_last_of(u), v.find_last_of(x)); CK("find_first_not_of", t.find_first_not_of(u), v.find_first_not_of(x)); CK("find_last_not_of", t.find_last_not_of(u), v.find_last_not_of(x));
      if (b.size() == 1) { CK("starts_with char", t.starts_with(b[0]), !a.empty() && a[0] == b[0]); CK("ends_with char", t.ends_with(b[0]), !a.empty() && a.back() == b[0]); }
      for (p = 0; p <= a.size() + 1; p++) {
        CK("find", t.find(u, p), v.find(x, p)); CK("rfind", t.rfind(u, p), v.rfind(x, p)); CK("find_first_of", t.find_first_of(u, p), v.find_first_of(x, p)); CK("find_last_of", t.find_last_of(u, p), v.find_last_of(x, p)); CK("find_first_not_of", t.find_first_not_of(u, p), v.find_first_not_of(x, p)); CK("find_last_not_of", t.find_last_not_of(u, p), v.find_last_not_of(x, p));
        if (b.size() == 1) { char q = b[0]; CK("find char", t.find(q, p), v.find(q, p)); CK("rfind char", t.rfind(q, p), v.rfind(q, p)); CK("find_first_of char", t.find_first_of(q, p), v.find_first_of(q, p)); CK("find_last_of char", t.find_last_of(q, p), v.find_last_of(q, p)); CK("find_first_not_of char", t.find_first_not_of(q, p), v.find_first_not_of(q, p)); CK("find_last_not_of char", t.find_last_not_of(q, p), v.find_last_not_of(q, p)); }
        if (c) { CK("find C", t.find(z, p), v.find(z, p)); CK("rfind C", t.rfind(z, p), v.rfind(z, p)); CK("find_first_of C", t.find_first_of(z, p), v.find_first_of(z, p)); CK("find_last_of C", t.find_last_of(z, p), v.find_last_of(z, p)); CK("find_first_not_of C", t.find_first_not_of(z, p), v.find_first_not_of(z, p)); CK("find_last_not_of C", t.find_last_not_of(z, p), v.find_last_not_of(z, p)); }
        if (full && p <= a.size()) for (size_t n = 0; n <= b.size(); n++) {
          CK("find C n", t.find(z, p, n), v.find(z, p, n)); CK("rfind C n", t.rfind(z, p, n), v.rfind(z, p, n)); CK("find_first_of C n", t.find_first_of(z, p, n), v.find_first_of(z, p, n)); CK("find_last_of C n", t.find_last_of(z, p, n), v.find_last_of(z, p, n)); CK("find_first_not_of C n", t.find_first_not_of(z, p, n), v.find_first_not_of(z, p, n)); CK("find_last_not_of C n", t.find_last_not_of(z, p, n), v.find_last_not_of(z, p, n));
          CK("compare part", sg(t.compare(p, n, u)), sg(v.compare(p, n, x))); CK("compare parts", sg(t.compare(0, p, u, b.size() - n, n)), sg(v.compare(0, p, x, b.size() - n, n))); CK("compare part C n", sg(t.compare(p, p + 1, z, n)), sg(v.compare(p, p + 1, z, n)));
          if (c) CK("compare part C", sg(t.compare(p, n, z)), sg(v.compare(p, n, z)));
        }
      }
    }
    // views without data
    { const string b; size_t p = 0; T e; CK("empty view", e.compare(T()), 0); CK("empty ==", e == T(""), true); CK("empty find", t.find(e), (size_t)0); CK("empty rfind", t.rfind(e), a.size()); CK("find in empty", e.find(t), a.empty() ? 0 : T::npos); CK("empty <", e < t, !a.empty()); CK("compare with empty", sg(t.compare(e)), a.empty() ? 0 : 1); CK("null C", T((const char *)nullptr).size(), (size_t)0); }
  }
};

// ---------------------------------------------------------------- counting pointer
struct Cn : tlx::ReferenceCounter { tlx::CountingPtr<Cn> next; Box id; Cn(int i) : id(i) {} virtual ~Cn() {} };
struct Cd : Cn { Cd(int i) : Cn(i) {} };
struct CPtr : Base {
  typedef tlx::CountingPtr<Cn> P;
  enum { NP = 3, MO = 4 };
  struct S { P p[NP]; int r[NP]; int nx[MO]; bool live[MO]; Cn *o[MO]; };
  S *s; long ib; bool cyc;
  CPtr(const string &nm, bool cyc, int d) : cyc(cyc) {
    static const char *n[] = {"new", "copy", "move", "reset", "link", "follow", "follow-move", "swap", "null", "unlink", "new-derived", "unify", "self-assign", "link-move", "construct", "reset-next"}; N = n;
    for (int i = 0; i < NP; i++) {
      for (int o : {0, 3, 5, 6, 8, 9, 10, 11, 12, 14, 15}) let.push_back({o, i, 0});
      for (int j = 0; j < NP; j++) if (i != j || cyc) { for (int o : {4, 13}) let.push_back({o, i, j}); if (i != j) for (int o : {1, 2, 7}) let.push_back({o, i, j}); }
    }
    fix(nm, d);
  }
  void setup() override { s = (S *)malloc(sizeof(S)); memset((void *)s, 0, sizeof *s); for (int i = 0; i < NP; i++) { new (&s->p[i]) P(); s->r[i] = -1; } for (int i = 0; i < MO; i++) s->nx[i] = -1; ib = oc::instances; }
  uint64_t fingerprint() override { HashM m; for (int i = 0; i < NP; i++) m(s->r[i] + 2); for (int i = 0; i < MO; i++) m(s->live[i] * 16 + s->nx[i] + 2); return m.h; }
  int cnt(int o) { int c = 0; for (int i = 0; i < NP; i++) c += s->r[i] == o; for (int i = 0; i < MO; i++) c += s->live[i] && s->nx[i] == o; return c; }
  void collect() { for (bool ch = true; ch; ) { ch = false; for (int o = 0; o < MO; o++) if (s->live[o] && !cnt(o)) { s->live[o] = false; s->nx[o] = -1; ch = true; } } }
  int fresh() { for (int i = 0; i < MO; i++) if (!s->live[i]) return i; return -1; }
  bool reach(int from, int to) { for (int i = 0; i <= MO && from >= 0; i++, from = s->nx[from]) if (from == to) return true; return false; }
  void apply(int l) override {
    Lt a = let[l]; P *p = s->p; int *r = s->r; int i = a.a, j = a.b, f;
    switch (a.op) {
      case 0: if ((f = fresh()) < 0) return; p[i] = tlx::make_counting<Cn>(f); s->o[f] = p[i].get(); s->live[f] = true; r[i] = f; break;
      case 10: if ((f = fresh()) < 0) return; { tlx::CountingPtr<Cd> d(new Cd(f)); if (f & 1) p[i] = d; else { P q(d); p[i] = std::move(d); } } s->o[f] = p[i].get(); s->live[f] = true; r[i] = f; break;
      case 1: p[i] = p[j]; r[i] = r[j]; break;
      case 2: { P q(std::move(p[j])); if (p[j].valid()) mc::fail("moved-from pointer is not empty"); p[i] = std::move(q); r[i] = r[j]; r[j] = -1; } break;
      case 3: p[i].reset(); r[i] = -1; break;
      case 8: p[i] = nullptr; r[i] = -1; break;
      case 4: if (r[i] < 0 || (!cyc && r[j] >= 0 && reach(r[j], r[i]))) return; p[i]->next = p[j]; s->nx[r[i]] = r[j]; break;
      case 13: if (r[i] < 0 || i == j || r[j] < 0 || r[j] == s->nx[r[i]] || (!cyc && reach(r[j], r[i]))) return; p[i]->next = std::move(p[j]); s->nx[r[i]] = r[j]; r[j] = -1; break;
      case 5: if (r[i] < 0) return; { int o = s->nx[r[i]]; p[i] = p[i]->next; r[i] = o; } break;
      case 6: if (r[i] < 0 || s->nx[r[i]] == r[i]) return; { int o = r[i]; p[i] = std::move(p[i]->next); r[i] = s->nx[o]; s->nx[o] = -1; } break;
      case 7: if (i & 1) p[i].swap(p[j]); else swap(p[i], p[j]); std::swap(r[i], r[j]); break;
      case 9: if (r[i] < 0) return; p[i]->next = P(); s->nx[r[i]] = -1; break;
      case 15: if (r[i] < 0 || (cyc && s->nx[r[i]] == r[i] && false)) return; p[i]->next.reset(); s->nx[r[i]] = -1; break;
      case 11: { if (r[i] < 0) return; bool u = cnt(r[i]) == 1; if (!u && (f = fresh()) < 0) return; Cn *before = p[i].get(); int old = r[i]; p[i].unify();
                 if (u) { if (p[i].get() != before) mc::fail("unify copied an object nobody shares"); } else { if (p[i].get() == before) { mc::fail("unify did not copy a shared object"); return; } p[i]->id = Box(f); s->o[f] = p[i].get(); s->live[f] = true; s->nx[f] = s->nx[old]; r[i] = f; } } break;
      case 12: { P &q = p[i]; p[i] = q; } break;
      case 14: { P q(p[i]); P t(q.get()); if (q != p[i] || t != q) mc::fail("copy differs"); } break;
    }
    collect();
  }
  void audit() override {
    int live = 0; for (int o = 0; o < MO; o++) live += s->live[o];
    if (oc::instances - ib != live) { mc::fail("%ld objects are alive instead of %d", oc::instances - ib, live); return; }
    for (int i = 0; i < NP; i++) {
      P &p = s->p[i]; int o = s->r[i];
      if (p.valid() != (o >= 0) || p.empty() == (o >= 0) || (bool)p != (o >= 0)) { mc::fail("pointer %d is %s", i, o >= 0 ? "empty" : "not empty"); continue; }
      if (o < 0) { if (p.get() || p.unique()) mc::fail("empty pointer refers to something"); continue; }
      if (p.get() != s->o[o] || p->id.get() != o || &*p != p.get()) { mc::fail("pointer %d refers to another object", i); continue; }
      if ((int)p.use_count() != cnt(o) || p.unique() != (cnt(o) == 1)) mc::fail("%d references are counted instead of %d", (int)p.use_count(), cnt(o));
      if (p->next.get() != (s->nx[o] < 0 ? nullptr : s->o[s->nx[o]])) mc::fail("the link of object %d is wrong", o);
      for (int j = 0; j < NP; j++) { P &q = s->p[j]; if ((p == q) != (o == s->r[j]) || (p != q) == (o == s->r[j]) || (p < q) != (p.get() < q.get()) || (p <= q) != (p.get() <= q.get()) || (p > q) != (p.get() > q.get()) || (p >= q) != (p.get() >= q.get()) || (p == q.get()) != (o == s->r[j])) mc::fail("comparison is wrong"); }
    }
  }
};

// ---------------------------------------------------------------- stack arena
template <size_t Z> struct Arena : Base {
  struct Blk { char *p; int n; bool on; unsigned char f; };
  struct S { tlx::StackArena<Z> *a; Blk b[5]; size_t used; int heap; };
  S *s; std::vector<int> sizes; long bb;
  Arena(const string &nm, std::vector<int> sz, int d) : sizes(sz) { static const char *n[] = {"allocate", "free"}; N = n; for (int x : sz) let.push_back({0, x, 0}); for (int i = 0; i < 5; i++) let.push_back({1, i, 0}); fix(nm, d); bfs = false; dedupe = true; }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); s->a = new tlx::StackArena<Z>(); bb = mc::live_blocks(); }
  bool inside(char *p) { return (char *)s->a <= p && p < (char *)(s->a + 1); }
  uint64_t fingerprint() override { HashM m; m(s->a->used()); for (auto &b : s->b) { m(b.on * 4096 + b.n); m(b.on && inside(b.p) ? b.p - (char *)s->a : b.on); } return m.h; }
  void apply(int l) override {
    Lt a = let[l];
    tlx::StackAllocator<char, Z> al(*s->a);
    if (a.op == 0) {
      Blk *b = nullptr; for (auto &x : s->b) if (!x.on) { b = &x; break; }
      if (!b) return;
      char *p = al.allocate(a.a); int f = 1 + (b - s->b) * 17 + a.a;
      if (((uintptr_t)p - (inside(p) ? (uintptr_t)s->a : 0)) % 16) mc::fail("a block is not aligned");
      for (auto &x : s->b) if (x.on && x.n && a.a && p < x.p + x.n && x.p < p + a.a) mc::fail("two blocks overlap");
      if (inside(p) && p + a.a > (char *)s->a + Z) mc::fail("a block reaches out of the arena");
      *b = {p, a.a, true, (unsigned char)f}; memset(p, f, a.a);
    } else { Blk &b = s->b[a.a]; if (!b.on) return; al.deallocate(b.p, b.n); b.on = false; }
  }
  void audit() override {
    int heap = 0, all = 0;
    for (auto &b : s->b) if (b.on) { all++; heap += !inside(b.p); for (int i = 0; i < b.n; i++) if ((unsigned char)b.p[i] != b.f) { mc::fail("the contents of a block changed"); return; } }
    if (mc::live_blocks() - bb != heap) mc::fail("%ld heap blocks for %d allocations outside the arena", mc::live_blocks() - bb, heap);
    if (s->a->used() > Z) mc::fail("%zu bytes used of %zu", s->a->used(), Z);
    if (s->a->size() != Z) mc::fail("size() is wrong");
  }
};

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s; s.property = prop;
    s.rule = "each evaluation is one operation applied in a distinct reachable state of a component, followed by a comparison of all observable results with a reference";
    bool T = tier == "thorough"; int D = 400;
    auto add = [&](mc::SeqConfig *c) { s.seq.push_back(c); };
    add(new DHeap<1, HCmp>("d_ary_heap arity 1", 3, T ? 6 : 5, D)); add(new DHeap<2, HCmp>("d_ary_heap arity 2", 3, T ? 8 : 7, D)); add(new DHeap<3, HGt>("d_ary_heap arity 3", 3, T ? 8 : 7, D)); add(new DHeap<4, HCmp>("d_ary_heap arity 4", 3, T ? 8 : 7, D)); add(new DHeap<8, HCmp>("d_ary_heap arity 8", 2, T ? 11 : 10, D)); add(new DHeap<2, HGt>("d_ary_heap arity 2, 2 values", 2, T ? 12 : 10, D));
    add(new DHeap<1, HCmp>("build d_ary_heap arity 1", 4, 6, 1, true)); add(new DHeap<2, HCmp>("build d_ary_heap arity 2", 3, T ? 10 : 9, 1, true)); add(new DHeap<3, HGt>("build d_ary_heap arity 3", 3, T ? 10 : 9, 1, true)); add(new DHeap<4, HCmp>("build d_ary_heap arity 4", 2, 13, 1, true)); add(new DHeap<2, HGt>("build d_ary_heap arity 2, 6 values", 6, T ? 7 : 6, 1, true));
    add(new AHeap<uint8_t, 2>("d_ary_addressable_int_heap arity 2", T ? 6 : 5, T ? 2 : 3, D)); add(new AHeap<uint16_t, 1>("d_ary_addressable_int_heap arity 1", 4, 3, D)); add(new AHeap<uint32_t, 3>("d_ary_addressable_int_heap arity 3", 5, T ? 3 : 2, D)); add(new AHeap<uint64_t, 4>("d_ary_addressable_int_heap arity 4", 6, 2, D)); add(new AHeap<uint32_t, 2>("d_ary_addressable_int_heap arity 2, 2 priorities", T ? 7 : 6, 2, D));
    add(new AHeap<uint32_t, 2>("build d_ary_addressable_int_heap arity 2", 5, 3, T ? 4 : 3, true)); add(new AHeap<uint8_t, 3>("build d_ary_addressable_int_heap arity 3", 6, 2, T ? 4 : 3, true)); add(new AHeap<uint16_t, 1>("build d_ary_addressable_int_heap arity 1", 4, 2, T ? 5 : 4, true));
    typedef std::vector<uint8_t> v8; typedef std::vector<int8_t> s8; typedef std::vector<uint16_t> v16; typedef std::vector<uint32_t> v32; typedef std::vector<int32_t> s32; typedef std::vector<uint64_t> v64; typedef std::vector<int64_t> s64;
    int RM = T ? 5 : 4;
    add(new RHeap<uint32_t, 2>("radix heap u32 radix 2", v32{0, 1, 2, 3, 4, 6, 7, 8, 255, 256, 1u << 31, ~0u}, RM - 1, D));
    add(new RHeap<uint32_t, 8>("radix heap u32 radix 8", v32{0, 1, 6, 7, 8, 9, 15, 16, 63, 64, 511, 512, 1u << 30, ~0u - 1, ~0u}, RM - 1, D));
    add(new RHeap<uint64_t, 64>("radix heap u64 radix 64", v64{0, 1, 62, 63, 64, 65, 127, 128, 4095, 4096, 1ull << 60, 1ull << 63, ~0ull - 1, ~0ull}, RM - 1, D));
    add(new RHeap<int32_t, 4>("radix heap i32 radix 4", s32{INT32_MIN, INT32_MIN + 1, -65, -5, -4, -1, 0, 1, 3, 4, 5, INT32_MAX - 1, INT32_MAX}, RM - 1, D));
    add(new RHeap<int64_t, 16>("radix heap i64 radix 16", s64{INT64_MIN, -17, -16, -1, 0, 1, 15, 16, 17, 255, 256, INT64_MAX}, RM - 1, D));
    add(new RHeap<uint16_t, 8>("radix heap u16 radix 8", v16{0, 1, 7, 8, 63, 64, 65, 511, 512, 32767, 32768, 65535}, RM - 1, D));
    add(new RHeap<uint8_t, 4>("radix heap u8 radix 4", v8{0, 1, 3, 4, 15, 16, 17, 63, 64, 127, 128, 255}, RM - 1, D));
    add(new RHeap<int8_t, 8>("radix heap i8 radix 8", s8{-128, -127, -65, -1, 0, 1, 7, 8, 63, 64, 127}, RM - 1, D));
    add(new RHeap<uint32_t, 8>("radix heap u32 radix 8, 5 keys", v32{0, 7, 8, 64, 65}, T ? 9 : 7, D));
    add(new RHeap<uint32_t, 32>("radix heap u32 radix 32", v32{0, 31, 32, 33, 1023, 1024, ~0u}, T ? 6 : 5, D));
    { v64 b; for (int i = 0; i < 64; i++) for (int d = -1; d <= 1; d++) b.push_back((1ull << i) + d); for (uint64_t x : {~0ull, ~0ull - 1, 0x5555555555555555ull, 0xAAAAAAAAAAAAAAAAull}) b.push_back(x); std::sort(b.begin(), b.end());
      v32 c; for (uint64_t x : b) c.push_back(uint32_t(x)); std::sort(c.begin(), c.end()); v16 e; for (int i = 0; i < 65536; i += (i < 300 || i > 65200) ? 1 : 61) e.push_back(i); v8 f; for (int i = 0; i < 256; i++) f.push_back(i);
      add(new RBuckets<uint64_t, 8>("buckets u64 radix 8", b)); add(new RBuckets<uint64_t, 64>("buckets u64 radix 64", b)); add(new RBuckets<uint64_t, 2>("buckets u64 radix 2", b)); add(new RBuckets<uint32_t, 8>("buckets u32 radix 8", c)); add(new RBuckets<uint32_t, 16>("buckets u32 radix 16", c)); add(new RBuckets<uint16_t, 8>("buckets u16 radix 8", e)); add(new RBuckets<uint8_t, 8>("buckets u8 radix 8", f)); add(new RBuckets<uint8_t, 2>("buckets u8 radix 2", f)); }
    add(new BitArr<32>("bit array 32", {0, 1, 15, 30, 31}, D)); add(new BitArr<33>("bit array 33", {0, 30, 31, 32}, D)); add(new BitArr<64>("bit array 64", {0, 31, 32, 33, 62, 63}, D)); add(new BitArr<65>("bit array 65", {0, 1, 31, 32, 62, 63, 64}, D)); add(new BitArr<128>("bit array 128", {0, 63, 64, 65, 126, 127}, D)); add(new BitArr<700>("bit array 700", {0, 1, 63, 64, 127, 128, 640, 699}, D)); add(new BitArr<4097>("bit array 4097", {0, 63, 64, 4032, 4095, 4096}, D));
    for (int k : {1, 2, 3, 4, 5, 6, 7}) {
      int U = k <= 4 ? 4 : k <= 5 ? 3 : 2; if (T && k <= 5) U++;
      string n = " of " + std::to_string(k);
      add(new LTree<tlx::LoserTreeCopy<false, int>, int, false, true, true>("loser tree copy" + n, k, U, D));
      add(new LTree<tlx::LoserTreeCopy<true, int>, int, true, true, true>("stable loser tree copy" + n, k, U, D));
      add(new LTree<tlx::LoserTreePointer<false, Big>, Big, false, true, false>("loser tree pointer" + n, k, U, D));
      add(new LTree<tlx::LoserTreePointer<true, Big>, Big, true, true, false>("stable loser tree pointer" + n, k, U, D));
      add(new LTree<tlx::LoserTreeCopyUnguarded<false, int>, int, false, false, true>("unguarded loser tree copy" + n, k, U, D));
      add(new LTree<tlx::LoserTreeCopyUnguarded<true, int>, int, true, false, true>("stable unguarded loser tree copy" + n, k, U, D));
      add(new LTree<tlx::LoserTreePointerUnguarded<false, Big>, Big, false, false, false>("unguarded loser tree pointer" + n, k, U, D));
      add(new LTree<tlx::LoserTreePointerUnguarded<true, Big>, Big, true, false, false>("stable unguarded loser tree pointer" + n, k, U, D));
    }
    for (int k : {3, 4, 5}) {             // every sequence, without merging states: ties are decided by the history
      int d = k + 7 + (T ? 2 : 0); string n = " of " + std::to_string(k) + ", all sequences";
      add(new LTree<tlx::LoserTreeCopy<false, int>, int, false, true, true>("loser tree copy" + n, k, 2, d, true));
      add(new LTree<tlx::LoserTreeCopy<true, int>, int, true, true, true>("stable loser tree copy" + n, k, 2, d, true));
      add(new LTree<tlx::LoserTreePointer<false, Big>, Big, false, true, false>("loser tree pointer" + n, k, 2, d, true));
      add(new LTree<tlx::LoserTreePointer<true, Big>, Big, true, true, false>("stable loser tree pointer" + n, k, 2, d, true));
      add(new LTree<tlx::LoserTreeCopyUnguarded<false, int>, int, false, false, true>("unguarded loser tree copy" + n, k, 3, d, true));
      add(new LTree<tlx::LoserTreeCopyUnguarded<true, int>, int, true, false, true>("stable unguarded loser tree copy" + n, k, 3, d, true));
      add(new LTree<tlx::LoserTreePointerUnguarded<false, Big>, Big, false, false, false>("unguarded loser tree pointer" + n, k, 3, d, true));
      add(new LTree<tlx::LoserTreePointerUnguarded<true, Big>, Big, true, false, false>("stable unguarded loser tree pointer" + n, k, 3, d, true));
    }
    add(new LRU<false>("LRU set", T ? 6 : 5, D)); add(new LRU<true>("LRU map", T ? 5 : 4, D));
    add(new Splay<false>("splay set", T ? 8 : 7, 8, D)); add(new Splay<true>("splay multiset", 3, T ? 7 : 6, D));
    add(new Ring("ring buffer 3", {3}, D)); add(new Ring("ring buffer 1, 2, 4", {1, 2, 4}, T ? 400 : 11)); add(new Ring("ring buffer 7, 1", {7, 1}, T ? 12 : 9));
    add(new SVec<int, tlx::SimpleVectorMode::Normal>("simple vector of int", 3, D)); add(new SVec<VBox, tlx::SimpleVectorMode::Normal>("simple vector of objects", 3, D)); add(new SVec<VBox, tlx::SimpleVectorMode::NoInitButDestroy>("simple vector without initialization", 3, D)); add(new SVec<int, tlx::SimpleVectorMode::NoInitNoDestroy>("simple vector of raw ints", 3, D));
    add(new SView("string view, any bytes", string("a\0\xffz", 4), T ? 4 : 3, true)); add(new SView("string view, two letters", "ab", T ? 6 : 5, true)); add(new SView("string view, low and high", string("\x01\x80", 2), 4, false));
    add(new CPtr("counting pointer", false, 400)); add(new CPtr("counting pointer with cycles", true, T ? 400 : 8));
    add(new Arena<64>("arena 64", {0, 1, 16, 17, 32, 64, 65}, T ? 7 : 6)); add(new Arena<40>("arena 40", {1, 8, 16, 24, 33, 40, 41}, T ? 7 : 6)); add(new Arena<100>("arena 100", {4, 16, 20, 36, 100}, T ? 8 : 6));
    return s;
  });
}
