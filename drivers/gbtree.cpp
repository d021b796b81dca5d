// GoogleBTree (C26): btree_map and btree_multimap against a sorted array.
#include "btree_map.h"
#include "oc.h"
long oc::instances = 0;
using oc::Box; using oc::BKey;

template <int N, class Key> struct Size { enum { v = 16 + N * (int)(sizeof(Key) + sizeof(Box)) }; };
struct CmpTo : btree::btree_key_compare_to_tag { int operator()(const int &a, const int &b) const { return a < b ? -1 : a > b; } };

template <class Cc, class Key, bool Multi> struct GT {
  typedef Cc C; typedef Key K;
  static const bool multi = Multi, map = true, hasv = true, exact = true, hint = true, erange = true, enext = true, index = !Multi, bulk = false, eone = false, cmp = false, rev = true;
  static const bool negkey = std::is_same<Key, int>::value || std::is_same<Key, BKey>::value;
  typedef typename C::value_type BV;
  static K mkey(int k) { K x{}; oc::mk_key(k, x); return x; }
  static typename C::value_type val(int k, int v) { return typename C::value_type(mkey(k), Box(v)); }
  template <class I> static int k(I it) { return oc::key_int(it->first); }
  template <class I> static int v(I it) { return it->second.get(); }
  template <class I> static int rk(I it) { return oc::key_int(it->first); }
  template <class I> static const Key &keyref(I it) { return it->first; }
  static void verify(C &c) {
    c.verify();
    // heights and counts reported agree with each other
    if ((c.height() == 0) != c.empty() || (c.nodes() == 0) != c.empty()) mc::fail("height %d, nodes %d", (int)c.height(), (int)c.nodes());
    if (c.nodes() != c.leaf_nodes() + c.internal_nodes()) mc::fail("node counts disagree");
    if (!c.empty() && depth(root(c)) != (int)c.height()) mc::fail("leaves at unequal depth, or height() wrong");
  }
  template <class N> static int depth(N *n) {
    if (n->leaf()) return 1;
    int d = depth(n->child(0));
    for (int i = 1; i <= n->count(); i++) if (depth(n->child(i)) != d) return -1000;
    return d < 0 ? d : d + 1;
  }
  static auto root(C &c) { auto n = c.begin().node; while (!n->is_root()) n = n->parent(); return n; }
  template <class N> static uint64_t nfp(N *n, uint64_t h) {
    auto mix = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
    mix(n->leaf() * 1000 + n->count() * 10); mix(n->max_count());
    for (int i = 0; i < n->count(); i++) { if (!n->leaf()) h = nfp(n->child(i), h); mix(oc::key_int(n->key(i)) * 64 + n->value(i).second.get() + 1); }
    if (!n->leaf()) h = nfp(n->child(n->count()), h);
    return h;
  }
  static uint64_t fp(C &c) { return c.empty() ? 77 : nfp(root(c), 1); }
  static long nodes(C &c) { return c.nodes() + (std::is_same<Key, std::string>::value ? 0 : 0); }
  static long insts(C &c, int n) { return n * (std::is_same<Key, BKey>::value ? 2 : 1); }
};
template <class Key, int N, class Cmp = std::less<Key>> using GMap = GT<btree::btree_map<Key, Box, Cmp, std::allocator<std::pair<const Key, Box>>, Size<N, Key>::v>, Key, false>;
template <class Key, int N, class Cmp = std::less<Key>> using GMulti = GT<btree::btree_multimap<Key, Box, Cmp, std::allocator<std::pair<const Key, Box>>, Size<N, Key>::v>, Key, true>;

static void ins_del(std::vector<oc::L> &l, int U, bool hints, bool multi) {
  using namespace oc;
  for (int k = 0; k < U; k++) { l.push_back({INS, k, 0}); l.push_back({DEL, k, 0}); }
  if (hints) for (int k = 0; k < U; k++) for (int o : {HLB, HUB, HEND, HBEG, HPREV}) l.push_back({o, k, 0});
  for (int k = 0; k < U; k++) { l.push_back({DELI, k, 0}); l.push_back({DELOWN, k, 0}); if (multi) { l.push_back({DELL, k, 0}); l.push_back({OWN, k, 0}); l.push_back({OWNL, k, 0}); } }
}
// every reachable tree over U keys
template <class T> void closure(mc::Suite &s, const std::string &n, int U, int dup, bool hints, uint64_t cap = 60000000) {
  auto *c = new oc::OCSeq<T>(); c->U = U; c->dup = dup; c->bfs = true; c->depth = 200; c->max_states = cap;
  ins_del(c->let, U, hints, T::multi);
  if (!hints) for (int k = 0; k < U; k++) { c->let.push_back({oc::HLB, k, 0}); if (T::multi) c->let.push_back({oc::HEND, k, 0}); }
  if (T::index) for (int k = 0; k < U; k++) if (k < 2) c->let.push_back({oc::IDX, k, 0});
  c->weight = 100;
  c->init_name(n + " every tree over " + std::to_string(U) + " keys" + (dup > 1 ? " times " + std::to_string(dup) : ""));
  s.seq.push_back(c);
}
// one or two operations on prefilled trees
template <class T> void prefilled(mc::Suite &s, const std::string &n, std::vector<int> sizes, int kinds, int dup, int depth, bool ranges, bool few = false) {
  for (int sz : sizes) for (int kind = 0; kind < kinds; kind++) {
    auto *c = new oc::OCSeq<T>(); c->U = sz + 1; c->dup = dup + 1; c->depth = depth;
    for (int d = 0; d < dup; d++) for (int k : oc::order(sz, kind)) c->pre.push_back(k);
    if (few) { for (int k : {0, 1, 2, 126, 127, 128, 129, 253, 254, 255, 256, sz - 2, sz - 1, sz}) if (k <= sz) for (int o : {oc::INS, oc::DEL, oc::HLB, oc::DELI}) c->let.push_back({o, k, 0}); }
    else if (depth == 1) ins_del(c->let, sz + 1, true, T::multi);
    else for (int k = 0; k <= sz; k++) { c->let.push_back({oc::INS, k, 0}); c->let.push_back({oc::DELI, k, 0}); }
    if (ranges) for (int i = 0; i <= sz * dup; i++) for (int j = i; j <= sz * dup; j++) c->let.push_back({oc::DELRG, i, j});
    c->weight = sz;
    c->init_name(n + " prefill " + std::to_string(sz) + (dup > 1 ? "x" + std::to_string(dup) : "") + " order " + std::to_string(kind) + " depth " + std::to_string(depth) + (ranges ? " ranges" : ""));
    s.seq.push_back(c);
  }
}
// everything erased again in every direction: alternating from both ends etc. is covered by closure; here large trees
template <class T> void two(mc::Suite &s, const std::string &n, int U, int dup, std::vector<int> pre, int depth, uint64_t cap = 60000000) {
  using namespace oc;
  auto *c = new OCSeq<T>(); c->U = U; c->dup = dup; c->bfs = true; c->depth = depth; c->max_states = cap; c->pre = pre;
  for (int k = 0; k < U; k++) { c->let.push_back({INS, k, 0}); c->let.push_back({DEL, k, 0}); }
  for (int o : {CLR, SWAP, SWITCH, COPY, ASG, SELF, RANGE, CTOR}) c->let.push_back({o, 0, 0});
  c->let.push_back({DELRG, 1, 3}); c->let.push_back({DELRG, 0, 100});
  c->weight = 50;
  c->init_name(n + " two containers, " + std::to_string(pre.size()) + " of " + std::to_string(U) + " keys, depth " + std::to_string(depth));
  s.seq.push_back(c);
}

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &property, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = "a sequence is one evaluation; after every operation the whole contents, every lookup and bound of every key, the invariants, the memory blocks and the live objects are compared with a sorted array";
    closure<GMap<int, 3>>(s, "map 3", th ? 12 : 10, 1, false);
    closure<GMap<int, 4>>(s, "map 4", th ? 12 : 10, 1, false);
    closure<GMap<BKey, 3>>(s, "map 3 class key", th ? 9 : 8, 1, true);
    closure<GMap<int, 5, CmpTo>>(s, "map 5 three-way", th ? 13 : 10, 1, false);
    closure<GMulti<int, 3>>(s, "multimap 3", 3, th ? 3 : 2, true);
    closure<GMulti<int, 3>>(s, "multimap 3", 1, th ? 8 : 5, true);
    closure<GMulti<BKey, 4>>(s, "multimap 4 class key", 4, 2, false);
    std::vector<int> sz; for (int i = 1; i <= (th ? 60 : 34); i++) sz.push_back(i);
    prefilled<GMap<int, 3>>(s, "map 3", sz, 5, 1, 1, false);
    prefilled<GMap<BKey, 4>>(s, "map 4 class key", sz, 5, 1, 1, false);
    prefilled<GMulti<int, 5, CmpTo>>(s, "multimap 5 three-way", sz, 5, 1, 1, false);
    prefilled<GMap<int, 3>>(s, "map 3", th ? std::vector<int>{16, 20, 26, 33, 40} : std::vector<int>{16, 26, 33}, 5, 1, 2, false);
    prefilled<GMap<int, 3>>(s, "map 3", th ? std::vector<int>{9, 17, 27, 36} : std::vector<int>{9, 17, 27}, 5, 1, 1, true);
    prefilled<GMap<BKey, 6>>(s, "map 6 class key", {20, 30}, 3, 1, 1, true);
    prefilled<GMulti<int, 3>>(s, "multimap 3", {3, 6}, 5, 4, 1, true);
    prefilled<GMap<int, 255>>(s, "map 255", th ? std::vector<int>{255, 256, 300, 520, 650} : std::vector<int>{255, 400, 650}, 3, 1, 1, false, !th);
    two<GMap<int, 3>>(s, "map 3", 4, 1, {}, th ? 8 : 5);
    two<GMap<int, 3>>(s, "map 3", 6, 1, {0, 1, 2, 3, 4}, th ? 6 : 4);
    two<GMap<BKey, 3>>(s, "map 3 class key", 16, 1, oc::order(15, 4), th ? 4 : 3);
    two<GMulti<int, 3>>(s, "multimap 3", 2, 4, {0, 0, 1, 1, 0}, th ? 5 : 4);
    return s;
  });
}
