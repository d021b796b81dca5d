// HOT (rowex).  C12 sequential ordered map, C13 linearizability, C14 reclamation and iteration.
#include <assert.h>
#include <byteswap.h>
#include <immintrin.h>
#include <algorithm>
#include <memory>
#include "HOT/hot.h"
#include "kv.h"
using namespace kv;

struct Par { int uni = 0; bool rotate = false, join = false, rounds = false; };
static std::vector<std::vector<std::string>> &universes() { static std::vector<std::vector<std::string>> u; return u; }
static int add_universe(std::vector<std::string> u) { std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end()); universes().push_back(u); return universes().size() - 1; }
static std::string be(uint64_t x) { std::string s(8, 0); for (int i = 0; i < 8; i++) s[i] = x >> (56 - 8 * i); return s; }
static uint64_t unbe(const std::string &s) { uint64_t x = 0; for (unsigned char c : s) x = x << 8 | c; return x; }

// keys as the tree sees them
struct IntK {
  struct Rec { uint64_t key; long value; };
  template <class T> struct Ex { typedef uint64_t KeyType; inline KeyType operator()(const Rec *r) const { return r->key; } };
  typedef uint64_t Key;
  static Rec *make(const std::string &k, long v) { auto *r = new Rec; r->key = unbe(k); r->value = v; return r; }
  struct Tmp { uint64_t k; Tmp(const std::string &s) : k(unbe(s)) {} operator Key() const { return k; } };
  static std::string str(const Rec *r) { return be(r->key); }
};
struct StrK {
  struct Rec { long value; int klen; char key[]; };
  template <class T> struct Ex { typedef const char *KeyType; inline KeyType operator()(const Rec *r) const { return r->key; } };
  typedef const char *Key;
  static Rec *make(const std::string &k, long v) { auto *r = (Rec *)malloc(sizeof(Rec) + k.size() + 1); r->value = v; r->klen = k.size(); memcpy(r->key, k.c_str(), k.size() + 1); return r; }
  struct Tmp { char b[300]; Tmp(const std::string &s) { memcpy(b, s.c_str(), s.size() + 1); } operator Key() const { return b; } };
  static std::string str(const Rec *r) { return std::string(r->key, r->klen); }
};
template <class K> struct Ad {
  typedef typename K::Rec Rec;
  typedef hot::rowex::HOTRowex<Rec *, K::template Ex> Tree;
  Tree *t;
  Tree *scratch = nullptr;     // replacing nodes here moves every free list of the running thread on
  Par p;
  Ad(const Par &p) : p(p) { t = new Tree(); if (p.rotate) scratch = new Tree(); }
  const std::string &ks(int k) { return universes()[p.uni][k]; }
  void tinit(int i) {
    if (i && scratch && !p.join) for (int j = 0; j < 3; j++) scratch->insert(K::make(be(0x4242424242420000ull + 0x101 * (i * 3 + j + 1)), 1));   // the thread has retired a node
    if (i && !p.join) { Out o; run(i, Op{GET, 0, 0}, o); }
  }
  // reclamation looks at a thread's lists again only when that thread goes on: let every thread go on
  void spin_epochs(int i) {
    if (!scratch || p.rounds) return;
    for (int j = 0; j < 9; j++) scratch->insert(K::make(be(0x4141414141410000ull + 0x101 * (i * 9 + j + 1)), 1));
  }
  void tfini(int i) { spin_epochs(i); }
  int decode(const Rec *r) {
    auto &u = universes()[p.uni];
    std::string s = K::str(r);
    auto it = std::lower_bound(u.begin(), u.end(), s);
    return it != u.end() && *it == s ? it - u.begin() : -1;
  }
  template <class It> void walk(It it, long n, Out &o) {
    for (; n > 0 && it != t->end(); ++it, n--) { Rec *r = *it; o.kv(decode(r), r->value); if (o.n >= mc::MAXDATA) mc::fail("iteration does not end"); }
  }
  long run(int, const Op &op, Out &o) {
    typename K::Tmp tmp(ks(op.k < 0 ? 0 : op.k));
    typename K::Key key = tmp;
    switch (op.op) {
      case INS: return t->insert(K::make(ks(op.k), op.v));
      case UPS: {
        auto r = t->upsert(K::make(ks(op.k), op.v));
        if (!r.mIsValid) return 0;
        if (decode(r.mValue) != op.k) return -777;
        return r.mValue->value;
      }
      case GET: {
        auto r = t->lookup(key);
        if (!r.mIsValid) return 0;
        if (decode(r.mValue) != op.k) return -777;
        return r.mValue->value;
      }
      case X1: { auto r = t->scan(key, op.v); return r.mIsValid ? decode(r.mValue) * 100000L + r.mValue->value : -1; }
      case SCAN: walk(t->lower_bound(key), op.v, o); return 0;
      case UB: walk(t->upper_bound(key), op.v, o); return 0;
      case FIND: walk(t->find(key), op.v, o); return 0;
      case ITER: walk(t->begin(), op.v, o); return 0;
    }
    return -98;
  }
  void full(int, Out &o) { walk(t->begin(), 1000, o); }
  void finish() {
    spin_epochs(0);
    delete t; t = nullptr;
    spin_epochs(0);
    delete scratch;
  }
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    if (op.op == UPS) { if (r != st[op.k]) return false; st[op.k] = op.v; return true; }
    if (op.op == X1) { long i = op.v; for (int k = op.k; k < U; k++) if (st[k] && i-- == 0) return r == k * 100000L + st[k]; return r == -1; }
    Op q = op; q.op = SCAN;
    if (op.op == SCAN || op.op == UB || op.op == ITER || op.op == FIND) {
      if (op.op == UB) q.k++;
      if (op.op == ITER) q.k = 0;
      if (op.op == FIND && !st[op.k]) return n == 0;
      return std_spec(q, r, d, n, st, U);
    }
    return std_spec(op, r, d, n, st, U);
  }
};

struct Sit { std::string name; bool str; int uni; std::vector<int> pre, hot; };
static uint64_t lcg(uint64_t &x) { x = x * 6364136223846793005ull + 1442695040888963407ull; return x >> 33; }
// n of the U keys present, chosen so that the rest lie between and beyond them; order 0 ascending, 1 descending, 2 shuffled
static void add(std::vector<Sit> &r, const std::string &nm, bool str, int uni, int n, int order, int nhot) {
  int U = universes()[uni].size();
  Sit s{nm + "/" + std::to_string(n) + "o" + std::to_string(order), str, uni, {}, {}};
  if (n > U) n = U;
  std::vector<char> in(U, 0);
  for (int i = 0; i < n; i++) in[n == U ? i : (int)((long)(2 * i + 1) * U / (2 * n))] = 1;
  for (int k = 0; k < U; k++) if (in[k]) s.pre.push_back(k);
  uint64_t x = 77 + n;
  if (order == 1) std::reverse(s.pre.begin(), s.pre.end());
  if (order == 2) for (int i = (int)s.pre.size() - 1; i > 0; i--) std::swap(s.pre[i], s.pre[lcg(x) % (i + 1)]);
  std::vector<int> out; for (int k = 0; k < U; k++) if (!in[k]) out.push_back(k);
  auto put = [&](int k) { if (!std::count(s.hot.begin(), s.hot.end(), k)) s.hot.push_back(k); };
  // absent keys spread over the universe, and the ends; then one present key
  if (!out.empty()) for (int i = 0; i < nhot; i++) put(out[nhot == 1 ? out.size() / 2 : (long)i * (out.size() - 1) / (nhot - 1)]);
  if (!s.pre.empty()) { put(s.pre[s.pre.size() / 2]); put(s.pre[0]); }
  r.push_back(s);
}
enum { DENSE, STEP, ONEHOT, MASKS, BYTES, GROUPS, WIDE, SDENSE, SPOS, SPOS2, SPREFIX, SLONG, SGROUPS, TINY, STINY, NUNI };
static int uni_id[NUNI];
static bool uni_str(int u) { return u >= SDENSE && u != TINY; }
static const char *uni_name[] = {"dense", "step", "onehot", "masks", "bytes", "groups", "wide", "sdense", "spos", "spos2", "sprefix", "slong", "sgroups", "tiny", "stiny"};
static void mk_universes() {
  std::vector<std::string> v[NUNI];
  for (int i = 0; i < 72; i++) v[DENSE].push_back(be(i));
  for (int i = 0; i < 72; i++) v[STEP].push_back(be((uint64_t)i * 0x0000010000020101ull));
  v[ONEHOT].push_back(be(0)); for (int i = 0; i < 63; i++) v[ONEHOT].push_back(be(1ull << i));
  for (int i = 1; i < 64; i++) v[MASKS].push_back(be(~0ull << i)); v[MASKS].push_back(be(~0ull));
  for (int j = 0; j < 8; j++) for (int i = 1; i <= 8; i++) v[BYTES].push_back(be((uint64_t)(i * 29 & (j == 7 ? 127 : 255)) << (8 * j)));
  for (int g = 0; g < 40; g++) for (int i = 0; i < 5; i++) v[GROUPS].push_back(be((uint64_t)g << 40 | (uint64_t)(i * i * 37)));
  uint64_t x = 5; for (int i = 0; i < 70; i++) { uint64_t h = lcg(x) << 32; v[WIDE].push_back(be(h | (lcg(x) & 0xffffffff))); }
  for (int i = 0; i < 72; i++) v[SDENSE].push_back("k" + std::to_string(i));
  for (int i = 0; i < 70; i++) { std::string s(90, 'a'); s[i] = 'c'; v[SPOS].push_back(s); }
  for (int i = 0; i < 70; i++) { std::string s(250, 'a'); s[i * 3 + 10] = 'e'; s[i] = 'b'; v[SPOS2].push_back(s); }
  for (int i = 0; i < 70; i++) v[SPREFIX].push_back(std::string(i + 1, 'p'));
  x = 9; for (int i = 0; i < 60; i++) { std::string s; int l = 1 + lcg(x) % 200; for (int j = 0; j < l; j++) s += (char)(1 + lcg(x) % 250); v[SLONG].push_back(s); }
  for (int g = 0; g < 40; g++) for (int i = 0; i < 5; i++) { std::string s(30, 'q'); s[g % 30] = 'r' + g / 30; s += std::string(1 + i * 3, 'x'); v[SGROUPS].push_back(s); }
  for (int i = 0; i < 12; i++) { v[TINY].push_back(be(i * 3)); v[STINY].push_back("t" + std::string(1, 'a' + i)); }
  for (int u = 0; u < NUNI; u++) uni_id[u] = add_universe(v[u]);
}
static std::vector<Sit> sits(bool th, const std::vector<int> &counts, const std::vector<int> &unis, int nhot, const std::vector<int> &orders) {
  std::vector<Sit> r;
  for (int u : unis) for (int n : counts) { if (n >= (int)universes()[uni_id[u]].size()) continue; for (int o : orders) if (n > 1 || o == 0) add(r, uni_name[u], uni_str(u), uni_id[u], n, o, nhot); }
  return r;
}
template <class K> static void one_seq(mc::Suite &s, const Sit &q, int depth) {
  auto *c = new KVSeq<Ad<K>, Par>();
  c->par.uni = q.uni; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
  for (int k : q.pre) c->init[k] = 50 + k;
  c->order = q.pre;
  for (int k : q.hot) { c->letters.push_back({INS, k, 300 + k}); c->letters.push_back({UPS, k, 600 + k}); }
  for (size_t i = 0; i < q.hot.size(); i++) {
    int k = q.hot[i];
    c->probes.push_back({SCAN, k, 3}); c->probes.push_back({UB, k, 3}); c->probes.push_back({FIND, k, 2}); c->probes.push_back({X1, k, (long)(i * 3)});
  }
  c->probes.push_back({SCAN, 0, 300}); c->probes.push_back({UB, c->U - 1, 3}); c->probes.push_back({SCAN, c->U - 1, 3}); c->probes.push_back({X1, 0, 40});
  c->depth = depth;
  c->finish_setup(q.name);
  s.seq.push_back(c);
}
template <class K> static void bounds_seq(mc::Suite &s, const Sit &q) {    // every start position
  auto *c = new KVSeq<Ad<K>, Par>();
  c->par.uni = q.uni; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
  for (int k : q.pre) c->init[k] = 50 + k;
  c->order = q.pre;
  for (int k : q.hot) c->letters.push_back({INS, k, 300 + k});
  for (int k = 0; k < c->U; k++) { c->probes.push_back({SCAN, k, 2}); c->probes.push_back({UB, k, 2}); c->probes.push_back({FIND, k, 1}); }
  c->depth = 1;
  c->finish_setup("bounds " + q.name);
  s.seq.push_back(c);
}
static void seqs(mc::Suite &s, bool th) {
  std::vector<int> all; for (int u = 0; u < TINY; u++) all.push_back(u);
  std::vector<int> few = {0, 1, 2, 3, 4, 8, 9, 16, 17, 30, 31, 32, 33, 45, 60};
  if (th) few = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 17, 18, 20, 24, 28, 29, 30, 31, 32, 33, 34, 36, 40, 45, 50, 55, 60, 65};
  for (auto &q : sits(th, few, all, th ? 8 : 5, {0, 1, 2})) { if (q.str) one_seq<StrK>(s, q, th ? 3 : 2); else one_seq<IntK>(s, q, th ? 3 : 2); }
  for (auto &q : sits(th, {80, 100, 120, 130, 150, 180}, {GROUPS, SGROUPS}, 4, {0, 1, 2})) { if (q.str) one_seq<StrK>(s, q, 2); else one_seq<IntK>(s, q, 2); }
  for (auto &q : sits(th, {1, 2, 5, 16, 32, 40, 60, 150}, all, 3, {0, 2})) { if (q.str) bounds_seq<StrK>(s, q); else bounds_seq<IntK>(s, q); }
  // from empty, every sequence over a few keys of each kind
  for (int u : all) {
    Sit q{std::string("empty ") + uni_name[u], uni_str(u), uni_id[u], {}, {}};
    int U = universes()[q.uni].size();
    for (int i = 0; i < (th ? 6 : 5); i++) q.hot.push_back((long)i * (U - 1) / 5);
    if (q.str) one_seq<StrK>(s, q, th ? 5 : 4); else one_seq<IntK>(s, q, th ? 5 : 4);
  }
}
template <class K> struct Conc : KVConc<Ad<K>, Par> {
  bool effective(const mc::OpRec &o) override { return o.op == UPS || o.r != 0; }
};
static void concs(mc::Suite &s, const std::string &prop, bool th) {
  std::set<std::string> seen;
  auto put = [&](const Sit &q, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag, bool join = false) {
    for (auto &p : ps) {
      auto go = [&](auto *c) {
        c->par.uni = q.uni; c->par.rotate = prop == "C14"; c->par.join = join; c->par.rounds = tag.compare(0, 6, "rounds") == 0; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
        for (int k : q.pre) c->init[k] = 50 + k;
        c->order = q.pre; c->progs = p; c->bound = bound; c->fill = 0;
        c->interval = {SCAN, ITER};
        c->build_name(q.name + "/" + tag);
        if (seen.insert(c->name).second) s.conc.push_back(c);
      };
      if (q.str) go(new Conc<StrK>()); else go(new Conc<IntK>());
    }
  };
  std::vector<Sit> sv = sits(th, {0, 1, 2, 3, 8, 16, 31, 32, 33, 34}, {DENSE, ONEHOT, SPOS}, 3, {0});
  for (auto &q : sits(th, {40, 60}, {DENSE, MASKS, SPREFIX}, 3, {0, 2})) sv.push_back(q);
  for (auto &q : sits(th, {9, 32, 45}, {BYTES, WIDE, SLONG, SPOS2}, 3, {2})) sv.push_back(q);
  for (auto &q : sits(th, {70, 130}, {GROUPS, SGROUPS}, 3, {0, 2})) sv.push_back(q);
  for (auto &q : sv) {
    int n = q.pre.size();
    std::vector<Op> wr, rd, ins;
    for (int k : q.hot) { ins.push_back({INS, k, 1}); rd.push_back({GET, k, 0}); }
    wr = ins;
    wr.push_back({UPS, q.hot[0], 1}); wr.push_back({UPS, q.hot.back(), 1});
    if (n > 1) wr.push_back({UPS, q.pre[n / 2], 1});
    std::vector<Op> al = wr; al.push_back(rd[0]); al.push_back(rd.back());
    int big = n > 30 ? (th ? 3 : 2) : n > 3 ? (th ? 4 : 3) : 255;
    if (prop == "C13") {
      put(q, pairs(al, 1, 1), big, "1x1");
      std::vector<Op> w3 = {wr[0], {UPS, q.hot[0], 1}, rd[0]}; if (q.hot.size() > 1) w3.push_back(wr[1]);
      put(q, combos({programs(w3, 2), programs(w3, 1)}, false), th ? 3 : 1, "2x1");
      if (n <= 4 || th) { auto P = programs(w3, 1); put(q, combos({P, P, P}, true), th ? 2 : n <= 1 ? 2 : 1, "three"); }
    } else {
      std::vector<Op> w3(wr.begin(), wr.begin() + std::min<size_t>(3, wr.size())), r2 = {rd[0], rd.back(), {SCAN, 0, 300}, {SCAN, q.hot[0], 3}, {UB, q.hot[0], 2}};
      std::vector<Op> sc = {{ITER, 0, 300}, {SCAN, q.hot.back(), 5}};
      r2.pop_back();
      put(q, combos({programs(w3, 1), programs(r2, 1)}, false), big, "1x1");
      put(q, combos({programs(w3, 1), programs(sc, 1)}, false), big, "scan");
      if (n >= 2 && n <= 40) {
        put(q, combos({programs({w3[0], w3.back()}, 1), programs({rd[0]}, 1)}, false), th ? 3 : 2, "join", true);
        put(q, combos({programs(w3, 2), programs({sc[0], rd[0]}, 1)}, false), th ? 3 : 1, "2x1");
      }
    }
  }
  if (prop == "C13") for (auto &q : sits(th, {3, 12, 30}, {DENSE, MASKS, SPREFIX}, 10, {0})) {
    Prog lw; for (int k : q.hot) lw.push_back({INS, k, 1});             // one long writer
    std::vector<Op> al = {{GET, q.pre[0], 0}, {GET, q.hot[0], 0}, {GET, q.hot.back(), 0}, {INS, q.hot.back(), 1}, {INS, q.hot[1], 1}, {UPS, q.pre.back(), 1}};
    put(q, combos({{lw}, programs(al, 1)}, false), th ? 2 : 1, "long");
  }
  if (prop == "C14") {
    // one thread goes through all epochs while the other is inside an operation
    for (auto &q : sits(th, {2}, {TINY, STINY}, 10, {0})) {
      if (q.str && !th) continue;
      Prog p;
      for (int i = 0; i < 8; i++) p.push_back({INS, q.hot[i], 1});
      std::vector<Op> r = {{ITER, 0, 300}, {INS, q.hot[8], 1}, {UPS, q.pre[0], 1}};
      Prog m = p;             // lookups suffice to move the epoch on once a node has been retired
      for (int i : {0, 4, 6, 7}) m[i] = {GET, q.pre[0], 0};
      put(q, combos({{m}, programs({{GET, q.hot[3], 0}}, 1)}, false), 3, "rounds");
      if (!th) r.resize(1);
      put(q, combos({{p}, programs(r, 1)}, false), th ? 3 : 2, "rounds");
      Prog a(p.begin(), p.begin() + 4), b(p.begin() + 4, p.end());
      put(q, combos({{a}, {b}, programs({{GET, q.hot[3], 0}, r[0]}, 1)}, false), th ? 2 : 1, "rounds2");
    }
  }
}
int main(int argc, char **argv) {
  mk_universes();
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C12" ? "every operation sequence applied to the real trie and compared with the reference map after every step" : "every interleaving of each concurrent program on the real trie";
    if (prop == "C12") seqs(s, th); else concs(s, prop, th);
    return s;
  });
}
