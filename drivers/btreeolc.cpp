// BTreeOLC: both node layouts.  C01 sequential map, C02 linearizability.
#include <atomic>
#include <cassert>
#include <cstring>
#include <utility>
#include <immintrin.h>
#include <sched.h>
#define btreeolc bt_split
#include "BTreeOLC/BTreeOLC.h"
#undef btreeolc
#define btreeolc bt_pair
#include "BTreeOLC/BTreeOLC_child_layout.h"
#undef btreeolc
#include "kv.h"
using namespace kv;

struct Par { int base = 0; };
constexpr int STRIDE = 2;   // keys are even numbers, so that absent neighbours exist on both sides

template <template <class, class> class T> struct Ad {
  T<long, long> *t;
  Par p;
  Ad(const Par &p) : p(p) { t = new T<long, long>(); }
  void tinit(int) {}
  void tfini(int) {}
  long key(int k) { return (long)(k + 1) * STRIDE; }
  // scan from a raw key; returns decoded entries. a scan covers one leaf
  long scan(long raw, int lim, Out &o) {
    long buf[128];
    for (auto &x : buf) x = -7;
    long n = t->scan(raw, lim, buf);
    for (long i = 0; i < n; i++) o.add(buf[i]);
    if (lim < 128 && buf[lim] != -7) return -99;
    return n;
  }
  long run(int, const Op &op, Out &o) {
    switch (op.op) {
      case UPS: t->insert(key(op.k), op.v); return -1;
      case GET: { long v = -5; bool f = t->lookup(key(op.k), v); return f ? v : 0; }
      case X1: { long v = -5; bool f = t->lookup(key(op.k) + 1, v); return f; }      // between the keys: always absent
      case SCAN: return scan(key(op.k), op.v, o);
      case X2: return scan(key(op.k) + 1, op.v, o);
    }
    return -98;
  }
  void full(int, Out &) {}
  void finish() {}
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    if (op.op == X1) return r == 0;
    if (op.op == SCAN || op.op == X2) {
      if (r != n || n > op.v) return false;
      if (op.op == SCAN && op.v > 0 && st[op.k] && n == 0) return false;   // a present start key must be returned
      int k = op.op == SCAN ? op.k : op.k + 1, i = 0;
      for (; k < U && i < n; k++) if (st[k]) { if (d[i] != st[k]) return false; i++; }
      return i == n;    // a run of consecutive present keys from the start; completeness is judged by `cover`
    }
    return std_spec(op, r, d, n, st, U);
  }
};
typedef Ad<bt_split::BTree> A1;
typedef Ad<bt_pair::BTree> A2;

// sequential: additionally, walking the tree leaf by leaf with scans must enumerate everything:
// the entry point of the next leaf is found by scanning from one past the largest key seen
template <class A> struct Seq : KVSeq<A, Par> {
  using B = KVSeq<A, Par>;
  void audit() override {
    for (int k = 0; k < B::U; k++) { B::step(Op{GET, k, 0}); B::step(Op{X1, k, 0}); B::step(Op{SCAN, k, 100}); B::step(Op{SCAN, k, 1}); B::step(Op{X2, k, 3}); }
    B::step(Op{X1, -1, 0});
  }
};
template <class A> static void add_seq(mc::Suite &s, const std::string &nm, int U, std::vector<int> order, int depth, std::vector<Op> letters) {
  auto *c = new Seq<A>();
  c->U = U; c->init.assign(U, 0);
  for (int k : order) c->init[k] = 50 + k;
  c->order = order; c->letters = letters; c->depth = depth;
  c->finish_setup(nm);
  c->weight = 1;
  s.seq.push_back(c);
}
template <class A> static void seqs(mc::Suite &s, const std::string &nm, bool th) {
  // leaf and inner capacity is 5 with the verification page size
  std::vector<Op> L;
  // permutations with repetition of 7 keys from empty: first splits at every position
  for (int k = 0; k < 7; k++) L.push_back({UPS, k, 100 + k});
  add_seq<A>(s, nm + "/empty7", 7, {}, th ? 8 : 7, L);
  // prefilled ascending / descending / middle-out up to several levels, then 3-4 arbitrary inserts anywhere
  for (int n : {6, 9, 14, 20, 27, 35, 48}) {
    if (!th && (n == 9 || n == 27)) continue;
    for (int dir = 0; dir < 3; dir++) {
      std::vector<int> ord;
      int U = 2 * n;
      for (int i = 0; i < n; i++) { int j = dir == 0 ? i : dir == 1 ? n - 1 - i : (i & 1 ? n / 2 + (i + 1) / 2 : n / 2 - i / 2); if (j >= 0 && j < n) ord.push_back(2 * j); }
      std::vector<Op> l2;
      for (int k = 0; k < U; k++) if (n < 30 || k % 2 || k % 8 == 0) l2.push_back({UPS, k, 200 + k});
      add_seq<A>(s, nm + "/pre" + std::to_string(n) + "d" + std::to_string(dir), U, ord, (th && n <= 27) ? 3 : 2, l2);
    }
  }
}
template <class A> static void concs(mc::Suite &s, const std::string &nm, bool th) {
  auto add = [&](int U, std::vector<int> order, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag) {
    for (auto &p : ps) {
      auto *c = new KVConc<A, Par>();
      c->U = U; c->init.assign(U, 0); for (int k : order) c->init[k] = 50 + k;
      c->order = order; c->progs = p; c->final_scan = false; c->bound = bound; c->fill = 0;
      c->build_name(nm + "/" + tag);
      s.conc.push_back(c);
    }
  };
  auto G = [](int k) { return Op{GET, k, 0}; };
  auto I = [](int k) { return Op{UPS, k, 0}; };
  auto S = [](int k, long n) { return Op{SCAN, k, n}; };
  // root leaf with 1..5 entries; 5 = the next insert splits the root
  for (int n = 0; n <= 5; n++) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(2 * i);
    std::vector<Op> al = {I(0), I(1), I(9), G(0), G(1), G(8), S(0, 8)};
    add(12, ord, pairs(al, 1, 1), 255, "leaf" + std::to_string(n));
  }
  // full leaf below a root with room: split with parent; and full root above full leaf
  std::vector<int> asc; for (int i = 0; i < 24; i++) asc.push_back(i);
  for (int n : {6, 8, 10, 12, 13, 14, 15, 16, 17}) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
    int U = n + 4;
    std::vector<Op> al = {I(n), I(n + 1), I(n - 1), I(0), G(n), G(n - 1), G(n - 3), S(n - 3, 8)};
    if (!th && (n == 6 || n == 10 || n == 12)) continue;
    add(U, ord, pairs(al, 1, 1), n == 15 && !th ? 3 : 255, "asc" + std::to_string(n));   // 15: leaf and inner split in one insert
    if (th) add(U, ord, pairs({I(n), I(n + 1), G(n), G(n - 1)}, 2, 1), 3, "asc" + std::to_string(n));
  }
  // inserts into the middle
  for (int n : {8, 14}) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(2 * i);
    std::vector<Op> al = {I(1), I(3), I(5), G(0), G(2), G(3), S(0, 8)};
    add(2 * n, ord, pairs(al, 1, 1), 255, "mid" + std::to_string(n));
    if (th) add(2 * n, ord, pairs({I(1), I(3), G(2), G(1)}, 2, 1), 3, "mid" + std::to_string(n));
  }
  // one long writer: several splits in a row between two steps of the other thread
  for (int n : {5, 8}) for (int m : {5, 12}) for (int dir = 0; dir < 2; dir++) {
    std::vector<int> ord; for (int i = 0; i < n - 1; i++) ord.push_back(i);
    int last = n + 1 + m;
    ord.push_back(last);
    Prog w; for (int i = 0; i < m; i++) w.push_back(I(n - 1 + (dir ? m - i : i + 1)));
    std::vector<Op> al = {G(last), I(last), G(n - 2), I(last - 1), I(last + 1), S(last, 3), S(n - 2, 20)};
    add(last + 2, ord, combos({{w}, programs(al, 1)}, false), th ? 3 : m > 5 ? 1 : 2, "long" + std::to_string(n) + "." + std::to_string(m) + (dir ? "d" : "u"));
  }
  // two operations against one, and three threads
  for (int n : {4, 5, 15}) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
    std::vector<Op> al = {I(n), I(n + 1), G(n), G(n - 1)};
    if (!th && n == 15) continue;
    add(n + 4, ord, pairs(al, 2, 1), n == 4 ? 255 : 3, "two" + std::to_string(n));
    auto P1 = programs(al, 1);
    add(n + 4, ord, combos({P1, P1, P1}, true), th ? 3 : 2, "three" + std::to_string(n));
  }
}
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C01" ? "one evaluation = one operation sequence prefix applied to the real tree and compared with the reference map after every step"
                           : "one evaluation = one complete interleaving of a concurrent program on the real tree, checked for linearizability; distinct = distinct observable outcomes";
    if (prop == "C01") { seqs<A1>(s, "split", th); seqs<A2>(s, "pair", th); }
    else { concs<A1>(s, "split", th); concs<A2>(s, "pair", th); }
    return s;
  });
}
