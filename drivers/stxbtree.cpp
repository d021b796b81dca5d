// STX B+ tree (C27): set, map, multiset and multimap against a sorted array.
struct BtInspect;
#define TLX_BTREE_FRIENDS friend struct ::BtInspect
#include "tlx/container/btree_map.hpp"
#include "tlx/container/btree_multimap.hpp"
#include "tlx/container/btree_set.hpp"
#include "tlx/container/btree_multiset.hpp"
#include "oc.h"
long oc::instances = 0;
namespace tlx {
void die_with_message(const std::string &msg) { mc::fail("%s", msg.c_str()); }
void die_with_message(const char *msg, const char *file, size_t line) { mc::fail("check failed: %s (line %d)", msg, (int)line); }
void die_with_message(const std::string &msg, const char *file, size_t line) { mc::fail("check failed: %s", msg.c_str()); }
}
using oc::Box; using oc::BKey;

template <class K> struct Kv { static int i(const K &k) { return oc::key_int(k); } };
struct BtInspect {
  template <class B, class N> static uint64_t nfp(const N *n, uint64_t h) {
    auto mix = [&](uint64_t x) { h = (h ^ x) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; };
    mix(n->level * 1000 + n->slotuse);
    if (n->is_leafnode()) { auto *l = static_cast<const typename B::LeafNode *>(n); for (int i = 0; i < n->slotuse; i++) { mix(oc::key_int(l->key(i)) * 64 + 1); mix(slotv(l->slotdata[i])); } }
    else { auto *l = static_cast<const typename B::InnerNode *>(n); for (int i = 0; i <= n->slotuse; i++) { if (i < n->slotuse) mix(oc::key_int(l->slotkey[i])); h = nfp<B>(l->childid[i], h); } }
    return h;
  }
  static int slotv(int) { return 0; }
  static int slotv(const BKey &) { return 0; }
  static int slotv(const std::string &) { return 0; }
  template <class K> static int slotv(const std::pair<K, Box> &p) { return p.second.get(); }
  template <class B> static bool heldkeys(const B &b, std::string &why) {      // every inner key is the largest key of the subtree left of it
    return b.root_ ? held<B>(b, b.root_, why) : true;
  }
  template <class B, class N> static bool held(const B &b, const N *n, std::string &why) {
    if (n->is_leafnode()) return true;
    auto *l = static_cast<const typename B::InnerNode *>(n);
    for (int i = 0; i <= n->slotuse; i++) {
      if (!held<B>(b, l->childid[i], why)) return false;
      if (i < n->slotuse) { const N *m = l->childid[i]; while (!m->is_leafnode()) m = static_cast<const typename B::InnerNode *>(m)->childid[m->slotuse]; auto *lf = static_cast<const typename B::LeafNode *>(m); if (oc::key_int(l->slotkey[i]) != oc::key_int(lf->key(lf->slotuse - 1))) { why = "an inner key is not the largest key below it"; return false; } }
    }
    return true;
  }
  template <class C> static auto &impl(C &c) { return c.tree_; }
  template <class B> static auto root(B &b) { return b.root_; }
};

template <int LS, int IS, int BS> struct Tr {
  static const bool self_verify = false, debug = false;
  static const int leaf_slots = LS, inner_slots = IS;
  static const size_t binsearch_threshold = BS;
};
template <class Cc, class Key, bool Map, bool Multi> struct ST {
  typedef Cc C; typedef Key K;
  static const bool multi = Multi, map = Map, hasv = Map, exact = false, hint = true, erange = false, enext = false, index = Map && !Multi, bulk = true, eone = true, cmp = true, rev = true;
  static const bool negkey = !std::is_same<Key, std::string>::value;
  typedef typename std::conditional<Map, std::pair<Key, Box>, Key>::type BV;
  static K mkey(int k) { K x{}; oc::mk_key(k, x); return x; }
  static auto val(int k, int v) { if constexpr (Map) return std::pair<Key, Box>(mkey(k), Box(v)); else return mkey(k); }
  template <class I> static const Key &kref(I it) { if constexpr (Map) return it->first; else return *it; }
  template <class I> static int k(I it) { return oc::key_int(kref(it)); }
  template <class I> static int v(I it) { if constexpr (Map) return it->second.get(); else return 0; }
  template <class I> static int rk(I it) { return k(it); }
  template <class I> static const Key &keyref(I it) { return kref(it); }
  static void verify(C &c) {
    c.verify();
    auto &st = c.get_stats();
    if (st.nodes() != st.leaves + st.inner_nodes) mc::fail("node counts disagree");
    if (st.size != c.size()) mc::fail("stats size differs");
    std::string why; if (!BtInspect::heldkeys(BtInspect::impl(c), why)) mc::fail("%s", why.c_str());
  }
  static uint64_t fp(C &c) { auto &b = BtInspect::impl(c); auto *r = BtInspect::root(b); return r ? BtInspect::nfp<typename std::remove_reference<decltype(b)>::type>(r, 1) : 77; }
  static long nodes(C &c) { return c.get_stats().leaves + c.get_stats().inner_nodes; }
  static long insts(C &c, int n) { return -1; }
};
template <class Key, int LS, int IS, int BS = 1 << 20> using SMap = ST<tlx::btree_map<Key, Box, std::less<Key>, Tr<LS, IS, BS>>, Key, true, false>;
template <class Key, int LS, int IS, int BS = 1 << 20> using SMMap = ST<tlx::btree_multimap<Key, Box, std::less<Key>, Tr<LS, IS, BS>>, Key, true, true>;
template <class Key, int LS, int IS, int BS = 1 << 20> using SSet = ST<tlx::btree_set<Key, std::less<Key>, Tr<LS, IS, BS>>, Key, false, false>;
template <class Key, int LS, int IS, int BS = 1 << 20> using SMSet = ST<tlx::btree_multiset<Key, std::less<Key>, Tr<LS, IS, BS>>, Key, false, true>;

static void ins_del(std::vector<oc::L> &l, int U, bool multi) {
  using namespace oc;
  for (int k = 0; k < U; k++) { l.push_back({INS, k, 0}); l.push_back({DEL, k, 0}); l.push_back({DELI, k, 0}); l.push_back({DELOWN, k, 0}); }
  if (multi) for (int k = 0; k < U; k++) { l.push_back({ONE, k, 0}); l.push_back({DELL, k, 0}); l.push_back({OWN, k, 0}); l.push_back({OWNL, k, 0}); }
}
template <class T> void closure(mc::Suite &s, const std::string &n, int U, int dup, uint64_t cap = 60000000) {
  auto *c = new oc::OCSeq<T>(); c->U = U; c->dup = dup; c->bfs = true; c->depth = 200; c->max_states = cap;
  ins_del(c->let, U, T::multi);
  c->let.push_back({oc::HLB, 0, 0}); c->let.push_back({oc::CLR, 0, 0});
  if (T::index) c->let.push_back({oc::IDX, 0, 0});
  c->weight = 100;
  c->init_name(n + " every tree over " + std::to_string(U) + " keys" + (dup > 1 ? " times " + std::to_string(dup) : ""));
  s.seq.push_back(c);
}
template <class T> void prefilled(mc::Suite &s, const std::string &n, std::vector<int> sizes, int kinds, int dup, int depth, bool few = false) {
  for (int sz : sizes) for (int kind = 0; kind < kinds; kind++) {
    auto *c = new oc::OCSeq<T>(); c->U = sz + 1; c->dup = dup + 1; c->depth = depth;
    for (int d = 0; d < dup; d++) for (int k : oc::order(sz, kind)) c->pre.push_back(k);
    if (few) { for (int k : {0, 1, 2, sz / 4, sz / 2, sz / 2 + 1, sz - 2, sz - 1, sz}) if (k >= 0 && k <= sz) for (int o : {oc::INS, oc::DEL, oc::DELI}) c->let.push_back({o, k, 0}); }
    else if (depth == 1) { ins_del(c->let, sz + 1, T::multi); for (int o : {oc::COPY, oc::SWAP, oc::CTOR}) c->let.push_back({o, 0, 0}); }
    else for (int k = 0; k <= sz; k++) { c->let.push_back({oc::INS, k, 0}); c->let.push_back({oc::DELI, k, 0}); }
    c->weight = sz;
    c->init_name(n + " prefill " + std::to_string(sz) + (dup > 1 ? "x" + std::to_string(dup) : "") + " order " + std::to_string(kind) + " depth " + std::to_string(depth));
    s.seq.push_back(c);
  }
}
template <class T> void two(mc::Suite &s, const std::string &n, int U, int dup, std::vector<int> pre, int depth) {
  using namespace oc;
  auto *c = new OCSeq<T>(); c->U = U; c->dup = dup; c->bfs = true; c->depth = depth; c->pre = pre;
  for (int k = 0; k < U; k++) { c->let.push_back({INS, k, 0}); c->let.push_back({DEL, k, 0}); }
  for (int o : {CLR, SWAP, SWITCH, COPY, ASG, SELF, RANGE, CTOR}) c->let.push_back({o, 0, 0});
  c->let.push_back({BULK, U, 1}); c->let.push_back({BULK, 1, 1});
  c->weight = 50;
  c->init_name(n + " two containers, " + std::to_string(pre.size()) + " of " + std::to_string(U) + " keys, depth " + std::to_string(depth));
  s.seq.push_back(c);
}
// bulk loads of every size, then any operation
template <class T> void bulk(mc::Suite &s, const std::string &n, int from, int max, int dup, int depth) {
  using namespace oc;
  auto *c = new OCSeq<T>(); c->U = (max + dup - 1) / dup + 1; c->dup = dup + 1; c->depth = depth; c->bfs = true;
  for (int i = from; i <= max; i++) c->let.push_back({BULK, i, dup});
  for (int k = 0; k < c->U; k++) { c->let.push_back({INS, k, 0}); c->let.push_back({DEL, k, 0}); c->let.push_back({DELI, k, 0}); }
  c->let.push_back({COPY, 0, 0});
  c->weight = 60;
  c->init_name(n + " bulk loads of " + std::to_string(from) + " to " + std::to_string(max) + (dup > 1 ? " with " + std::to_string(dup) + " equal keys" : "") + " depth " + std::to_string(depth));
  s.seq.push_back(c);
}

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &property, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = "a sequence is one evaluation; after every operation the whole contents, every lookup and bound of every key, the invariants and the memory blocks are compared with a sorted array";
    closure<SSet<int, 4, 4>>(s, "set 4/4", th ? 14 : 12, 1);
    closure<SMap<int, 5, 4>>(s, "map 5/4", th ? 13 : 11, 1);
    closure<SMap<BKey, 4, 5, 0>>(s, "map 4/5 class key binary", th ? 13 : 11, 1);
    closure<SMSet<int, 4, 4>>(s, "multiset 4/4", 2, th ? 10 : 8);
    closure<SMSet<int, 4, 4>>(s, "multiset 4/4", 4, th ? 5 : 4);
    closure<SMMap<int, 4, 4>>(s, "multimap 4/4", 3, th ? 3 : 2);
    closure<SMMap<int, 4, 4>>(s, "multimap 4/4", 1, th ? 7 : 6);
    std::vector<int> sz; for (int i = 1; i <= (th ? 80 : 40); i++) sz.push_back(i);
    prefilled<SSet<int, 4, 4>>(s, "set 4/4", sz, 5, 1, 1);
    prefilled<SMap<BKey, 5, 5, 0>>(s, "map 5/5 class key binary", sz, 5, 1, 1);
    prefilled<SMMap<std::string, 4, 6>>(s, "multimap 4/6 string key", th ? sz : std::vector<int>{3, 7, 12, 20, 30}, 3, 1, 1);
    prefilled<SMap<int, 8, 4, 0>>(s, "map 8/4 binary", th ? sz : std::vector<int>{17, 26, 35, 40}, 5, 1, 1);
    prefilled<SMSet<int, 4, 4>>(s, "multiset 4/4", {2, 3, 5}, 3, 9, 1);
    prefilled<SMMap<int, 4, 4>>(s, "multimap 4/4", {2, 3}, 3, 7, 1);
    prefilled<SSet<int, 4, 4>>(s, "set 4/4", th ? std::vector<int>{16, 24, 36, 44, 60} : std::vector<int>{16, 27, 36}, 5, 1, 2);
    prefilled<SMSet<int, 4, 4>>(s, "multiset 4/4", th ? std::vector<int>{3, 5} : std::vector<int>{3}, 3, 8, 2);
    prefilled<ST<tlx::btree_map<int, Box>, int, true, false>>(s, "map default", {20, 40, 100, 400, 650}, 3, 1, 1, true);
    two<SSet<int, 4, 4>>(s, "set 4/4", 5, 1, {}, th ? 6 : 4);
    two<SMap<int, 4, 4>>(s, "map 4/4", 7, 1, {0, 1, 2, 3, 4, 5}, th ? 5 : 3);
    two<SMSet<int, 4, 4>>(s, "multiset 4/4", 2, 5, {0, 0, 0, 1, 1}, th ? 5 : 4);
    two<SMMap<BKey, 4, 4>>(s, "multimap 4/4 class key", 3, 4, {0, 0, 1, 1, 2, 2}, th ? 4 : 3);
    bulk<SSet<int, 4, 4>>(s, "set 4/4", 0, th ? 140 : 60, 1, 2);
    bulk<SMap<int, 5, 4>>(s, "map 5/4", 0, th ? 60 : 30, 1, 2);
    bulk<SMSet<int, 4, 4>>(s, "multiset 4/4", 0, th ? 140 : 60, 7, 2);
    bulk<SMMap<int, 4, 4>>(s, "multimap 4/4", 0, 40, 5, 2);
    return s;
  });
}
