// FBTree.  C32 sequential map, C33 linearizability.  Included by one source file per configuration, which defines
// FBT_KEY (key kind), FBT_NAME, FBT_ADD (name of the registering function).
#include <string.h>
#include <limits>
#include <algorithm>
#include <atomic>
#include <chrono>
#include <deque>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include "kv.h"
#include "fbt_util/simd.h"
#include "FBTree/fbtree.h"
using namespace kv;

namespace {
enum { DENSE, SPREAD, BYTES, SIGNED };         // integer universes
enum { NUM, CHAIN, LONGP, HIGH, MIX, NUL };    // string universes
struct Par { int uni = 0; };

#if FBT_KEY == 0
inline std::string skey(int uni, int k) {      // strictly increasing in k
  char b[400];
  switch (uni) {
    case NUM: snprintf(b, sizeof b, "%03d", k); return b;
    case CHAIN: return std::string(k + 1, 'a');                                          // every key a prefix of the next
    case LONGP: { std::string s(k < 150 ? 300 : 210, 'p'); if (k >= 150) s += "q"; snprintf(b, sizeof b, "%03d", k); return s + b; }   // prefixes that are not embedded
    case HIGH: { unsigned char c[3] = {(unsigned char)(k / 6 * 5 + 3), (unsigned char)(k % 6 * 50 + 1), 0}; return std::string((char *)c, k % 6 == 0 ? 1 : 2); }  // bytes on both sides of 0x80
    case MIX: { std::string s(1 + k / 16, 'm'); int r = k % 16; if (r) { s += "abcdefghijklmnop"[r]; s[s.size() - 1] -= 'b' - 'A'; if (r % 3 == 0) s += "tail"; } return s; }
    case NUL: { std::string s(1, 'A' + k / 8); int r = k % 8; for (int i = 0; i < r; i++) s += '\0'; return s; }        // trailing zero bytes
  }
  return "";
}
typedef util::String Key;
typedef FeatureBTree::FBTree<util::String, long> Tree;
#else
#if FBT_KEY == 1
typedef uint64_t Key;
#elif FBT_KEY == 2
typedef int64_t Key;
#elif FBT_KEY == 3
typedef uint32_t Key;
#else
typedef int32_t Key;
#endif
inline Key ikey(int uni, int k) {
  const bool sg = (Key)-1 < 0;
  switch (uni) {
    case DENSE: return sg ? (k - 20) * 3 : (k + 1) * 3;
    case SPREAD: { uint64_t step = (sizeof(Key) == 8 ? ~0ull : 0xffffffffull) / 310; uint64_t x = (k + 1) * step; return (Key)(x - (sg ? 1ull << (sizeof(Key) * 8 - 1) : 0)); }
    case BYTES: { // neighbours of byte boundaries: many different common prefixes
      static const int J[16] = {0, 1, 3, 126, 127, 128, 129, 130, 252, 253, 254, 255, 256, 257, 258, 511};
      uint64_t hi = k / 16, lo = J[k % 16];
      uint64_t x = (hi * 0x010000ull << (sizeof(Key) == 8 ? hi % 20 ? 16 : 16 : 4)) + lo + 1;
      return (Key)(x - (sg ? 1ull << (sizeof(Key) * 8 - 2) : 0)); }
  }
  return 0;
}
typedef FeatureBTree::FBTree<Key, long> Tree;
#endif

struct Ad {
  Tree *t;
  Par p;
  Ad(const Par &p) : p(p) {}
  void tinit(int i) { if (!i) { base = mc::live_blocks(); t = new Tree(); } }
  void tfini(int) {}
  int idx(Tree::KVPair *kv) {
#if FBT_KEY == 0
    std::string s(kv->key.str, kv->key.len);
    if (p.uni == NUM) return s.size() == 3 ? atoi(s.c_str()) : -77;
    int lo = 0, hi = MAXU;
    while (lo < hi) { int m = (lo + hi) / 2; if (skey(p.uni, m) < s) lo = m + 1; else hi = m; }
    return skey(p.uni, lo) == s ? lo : -77;
#else
    int lo = 0, hi = MAXU;
    while (lo < hi) { int m = (lo + hi) / 2; if (ikey(p.uni, m) < kv->key) lo = m + 1; else hi = m; }
    return ikey(p.uni, lo) == kv->key ? lo : -77;
#endif
  }
  long take(util::EpochGuard &g, Tree::KVPair *old) { if (!old) return 0; long v = old->value; g.retire(old); return v; }
  long ups(int k, long v) {
    util::EpochGuard g(t->get_epoch());
#if FBT_KEY == 0
    return take(g, t->upsert(skey(p.uni, k), (const long &)v));
#else
    return take(g, t->upsert(ikey(p.uni, k), (const long &)v));
#endif
  }
  long del(int k) {
    util::EpochGuard g(t->get_epoch());
#if FBT_KEY == 0
    return take(g, t->remove(skey(p.uni, k)));
#else
    return take(g, t->remove(ikey(p.uni, k)));
#endif
  }
  long walk(Tree::iterator it, long lim, Out &o) {
    long n = 0;
    for (; n < lim && !it.end(); it.advance(), n++) { auto *kv = &*it; o.kv(idx(kv), it->value); }
    return n;
  }
  long run(int, const Op &op, Out &o) {
    switch (op.op) {
      case UPS: return ups(op.k, op.v);
      case DELR: for (int k = op.k; k < op.v; k++) o.add(del(k)); return 0;             // remove every key of a range
      case X1: for (int k = op.v - 1; k >= op.k; k--) o.add(del(k)); return 0;           // the same, downwards
      case X2: for (int k = op.k; k < op.v; k++) o.add(ups(k, 700 + k)); return 0;       // insert or replace a range
      case X3: for (int k = op.v - 1; k >= op.k; k--) o.add(ups(k, 800 + k)); return 0;
      case DEL: return del(op.k);
      case X4: finish(); t = new Tree(); return 0;                                        // destroy, start again
    }
    util::EpochGuard g(t->get_epoch());
#if FBT_KEY == 0
    std::string k = skey(p.uni, std::max(op.k, 0));
#else
    Key k = ikey(p.uni, std::max(op.k, 0));
#endif
    switch (op.op) {
      case UPDI: return take(g, t->update(k, (const long &)op.v));
      case GET: { auto *kv = t->lookup(k); return kv ? kv->value : 0; }
      case SCAN: case LB: return walk(t->lower_bound(k), op.v, o);
      case UB: return walk(t->upper_bound(k), op.v, o);
      case ITER: return walk(t->begin(), op.v, o);
    }
    return -98;
  }
  void full(int, Out &o) { util::EpochGuard g(t->get_epoch()); walk(t->begin(), 1000, o); }
  void finish() { delete t; if (mc::live_blocks() != base) mc::fail("%ld heap blocks left behind or freed too often", (long)mc::live_blocks() - base); }
  long base = 0;
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    switch (op.op) {
      case DELR: case X1: case X2: case X3: {
        bool up = op.op == DELR || op.op == X2;
        int i = 0;
        for (int j = op.k; j < op.v; j++, i++) {
          int k = up ? j : op.v - 1 - (j - op.k);
          if (i >= n || d[i] != st[k]) return false;
          st[k] = op.op == X2 ? 700 + k : op.op == X3 ? 800 + k : 0;
        }
        return i == n && r == 0;
      }
      case X4: for (int k = 0; k < U; k++) st[k] = 0; return true;
      case DEL: { bool ok = r == st[op.k]; st[op.k] = 0; return ok; }
      case UPS: { bool ok = r == st[op.k]; st[op.k] = op.v; return ok; }
      case UPDI: { bool ok = r == st[op.k]; if (st[op.k]) st[op.k] = op.v; return ok; }
      case SCAN: case LB: case UB: case ITER: {
        Op q{SCAN, op.op == UB ? op.k + 1 : op.op == ITER ? 0 : op.k, op.v};
        return r == n / 2 && std_spec(q, r, d, n, st, U);
      }
    }
    return std_spec(op, r, d, n, st, U);
  }
};

typedef KVSeq<Ad, Par> Seq;

void add_seq(mc::Suite &s, Par p, const std::string &tag, int U, std::vector<int> order, std::vector<Op> pre, int depth, std::vector<Op> letters, int probe) {
  auto *c = new Seq();
  c->par = p; c->U = U; c->init.assign(U, 0);
  for (int k : order) c->init[k] = 50 + k;
  letters.push_back({X4, 0, 0});
  c->order = order; c->pre = pre; c->letters = letters; c->depth = depth;
  for (int k = 0; k < U; k += probe) { c->probes.push_back({LB, k, probe == 1 ? 1000 : 3}); c->probes.push_back({UB, k, 3}); }
  c->finish_setup(std::string(FBT_NAME) + "/u" + std::to_string(p.uni) + "/" + tag);
  s.seq.push_back(c);
}
std::vector<int> orderof(int n, int dir, int stride) {
  std::vector<int> o;
  for (int i = 0; i < n; i++) { int j = dir == 0 ? i : dir == 1 ? n - 1 - i : (i & 1 ? n / 2 + (i + 1) / 2 : n / 2 - i / 2); if (j >= 0 && j < n) o.push_back(j * stride); }
  return o;
}
void seqs(mc::Suite &s, bool th) {
  const bool main = !strcmp(FBT_NAME, "u64") || !strcmp(FBT_NAME, "str");
  std::vector<int> unis = FBT_KEY == 0 ? std::vector<int>{NUM, CHAIN, LONGP, HIGH, MIX, NUL} : std::vector<int>{DENSE, SPREAD, BYTES};
  for (int u : unis) {
    Par p{u};
    // one leaf and its first splits
    for (int n : {0, 2, 14, 15, 16}) {
      if (!th && !main && n != 0 && n != 15) continue;
      auto ord = orderof(n, 2, 2);
      int U = 2 * n + 4;
      std::vector<Op> L;
      for (int k = 0; k < U; k++) if (n < 10 || k % 4 < 2) L.push_back({UPS, k, 200 + k});
      for (int k = 0; k < U; k += n < 10 ? 1 : 6) L.push_back({DEL, k, 0});
      L.push_back({UPDI, 0, 900}); L.push_back({UPDI, 1, 901});
      if (n) L.push_back({DELR, 0, U});
      add_seq(s, p, "leaf" + std::to_string(n), U, ord, {}, n < 10 ? (th ? 5 : 3) : th ? 3 : 2, L, 1);
    }
    // several leaves below one inner node: splits, removals that merge, everywhere
    for (int n : {17, 26, 40}) for (int dir = 0; dir < 3; dir++) {
      if (!th && (main ? n == 26 && dir != 2 : n != 26 || dir == 0)) continue;
      auto ord = orderof(n, dir, 2);
      int U = 2 * n;
      std::vector<Op> L;
      for (int k = 0; k < U; k += n > 20 ? 5 : 3) L.push_back({UPS, k, 200 + k});
      for (int k = 0; k < U; k += n > 20 ? 6 : 4) L.push_back({DEL, k, 0});
      for (int a = 0; a < U; a += U / 3) for (int b = a + U / 3; b <= U; b += U / 3) { L.push_back({DELR, a, b}); L.push_back({X1, a, b}); L.push_back({X2, a, b}); L.push_back({X3, a, b}); }
      L.push_back({UPDI, 4, 900}); L.push_back({UPDI, 5, 900});
      add_seq(s, p, "mid" + std::to_string(n) + "d" + std::to_string(dir), U, ord, {}, th ? 3 : 2, L, 3);
    }
    // inner node splits and merges: deep trees; whole ranges come and go
    for (int n : {150, 290}) for (int dir = 0; dir < 3; dir++) {
      if (!th && (main ? n == 150 && dir == 0 : n == 150 || dir != 1)) continue;
      auto ord = orderof(n, dir, 1);
      int U = n + 2;
      std::vector<Op> L;
      int q = n / 5;
      for (int a = 0; a + q <= n; a += q) for (int b = a + q; b <= n; b += q) { L.push_back({DELR, a, b}); L.push_back({X1, a, b}); if (b == a + q) { L.push_back({X2, a, b}); L.push_back({X3, a, b}); } }
      L.push_back({X2, 0, U}); L.push_back({X3, 0, U}); L.push_back({DELR, 0, U}); L.push_back({X1, 0, U});
      for (int k : {0, 7, n / 2, n - 1, n}) { L.push_back({UPS, k, 5}); L.push_back({DEL, k, 0}); }
      add_seq(s, p, "deep" + std::to_string(n) + "d" + std::to_string(dir), U, ord, {}, 2, L, 7);
    }
  }
}
void concs(mc::Suite &s, bool th) {
  auto add = [&](Par par, int U, std::vector<int> order, std::vector<Op> pre, std::vector<int> gone, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag) {
    for (auto &p : ps) {
      auto *c = new KVConc<Ad, Par>();
      c->par = par;
      c->U = U; c->init.assign(U, 0); for (int k : order) c->init[k] = 50 + k;
      c->order = order; c->pre = pre; c->gone = gone; c->progs = p; c->bound = bound; c->fill = 0;
      c->interval = {SCAN, ITER};
      c->build_name(std::string(FBT_NAME) + "/u" + std::to_string(par.uni) + "/" + tag);
      s.conc.push_back(c);
    }
  };
  auto G = [](int k) { return Op{GET, k, 0}; };
  auto I = [](int k) { return Op{UPS, k, 0}; };
  auto U_ = [](int k) { return Op{UPDI, k, 0}; };
  auto D = [](int k) { return Op{DEL, k, 0}; };
  auto S = [](int k, long n) { return Op{SCAN, k, n}; };
  int u = FBT_KEY == 0 ? NUM : DENSE;
  int B = th ? 4 : 3, B2 = th ? 3 : 2;
  // one leaf
  for (int n : {0, 2, 15, 16}) add(Par{u}, 2 * n + 4, orderof(n, 0, 2), {}, {}, pairs({I(0), I(1), I(2 * n + 1), U_(0), D(0), D(2), G(0), G(1), S(0, 3)}, 1, 1), B, "leaf" + std::to_string(n));
  // two leaves and three leaves: next to split, next to merge
  for (int n : {17, 24, 32}) {
    int U = 2 * n + 2;
    add(Par{u}, U, orderof(n, n == 24 ? 1 : 0, 2), {}, {}, pairs({I(1), I(U - 3), I(U - 1), U_(2 * n - 2), D(0), D(14), D(2 * n - 2), G(16), G(2 * n - 2), S(10, 4)}, 1, 1), B, "two" + std::to_string(n));
    std::vector<int> gone; std::vector<Op> pre;
    for (int k = 0; k < 2 * n; k += 2) if (k % 16 > 4) { gone.push_back(k); pre.push_back({DEL, k, 0}); }
    add(Par{u}, U, orderof(n, n == 24 ? 1 : 0, 2), pre, gone, pairs({I(1), I(6), I(U - 1), U_(0), D(0), D(2), D(16), D(2 * n - 2 - (2 * n - 2) % 16), G(0), G(16), G(20), S(0, 40)}, 1, 1), B, "thin" + std::to_string(n));
  }
  // the same with other keys
  if (FBT_KEY == 0) for (int v : {CHAIN, LONGP, HIGH, NUL}) if (th || v != LONGP) for (int n : {16, 24})
    add(Par{v}, 2 * n + 4, orderof(n, 1, 2), {}, {}, pairs({I(0), I(1), I(2 * n + 1), D(0), D(2 * n - 2), G(0), G(1), G(2 * n - 2), S(0, 4)}, 1, 1), B2, "keys" + std::to_string(n));
  // an insert that splits an inner node (the root)
  add(Par{u}, 292, orderof(144, 1, 2), {}, {}, pairs({I(1), I(5), I(289), U_(0), D(0), D(286), G(0), G(40), G(286), S(8, 4)}, 1, 1), B2, "inner");
  // two inner nodes that have become thin: removals that merge inner nodes and shrink the tree
  for (int a : {1, 2, 9}) for (int b : {1, 2, 9}) {
    if (!th && a == 2 && b == 9) continue;
    std::vector<int> gone; for (int k = a; k < 150 - b; k++) gone.push_back(k);
    for (int dir : {0, 1}) {
      std::vector<Op> pre; for (int k : gone) pre.push_back({DEL, k, 0});
      if (dir) std::reverse(pre.begin(), pre.end());
      add(Par{u}, 152, orderof(150, 1, 1), pre, gone, pairs({I(0), I(75), I(151), D(0), D(a - 1), D(150 - b), G(0), G(a), G(149), S(0, 4)}, 1, 1), B2, "shrink" + std::to_string(a) + "." + std::to_string(b) + (dir ? "d" : "u"));
    }
  }
  // one long writer: two splits, or two merges, in a row between two steps of the other thread
  {
    std::vector<int> ord = orderof(15, 0, 1); ord.push_back(40);
    for (int dir = 0; dir < 2; dir++) {
      Prog w; for (int i = 0; i < 11; i++) w.push_back(I(dir ? 36 - i : 19 + i));
      add(Par{u}, 44, ord, {}, {}, combos({{w}, programs({G(40), U_(40), D(40), I(39), I(41), G(14), S(14, 40)}, 1)}, false), th ? 3 : 2, dir ? "longd" : "longu");
      std::vector<int> o2 = orderof(38, 0, 1);
      std::vector<int> gone, rest; std::vector<Op> pre;
      for (int k = 0; k < 38; k++) if (k % 8 > 2 && k < 37) { gone.push_back(k); pre.push_back({DEL, k, 0}); } else if (k > 3 && k < 37) rest.push_back(k);
      Prog d; for (size_t i = 0; i < rest.size(); i++) d.push_back(D(dir ? rest[rest.size() - 1 - i] : rest[i]));
      add(Par{u}, 44, o2, pre, gone, combos({{d}, programs({G(37), U_(37), D(37), I(38), G(2), S(2, 40)}, 1)}, false), 2, dir ? "longmd" : "longmu");
    }
  }
  // longer programs, three threads
  {
    std::vector<int> gone; std::vector<Op> pre;
    for (int k = 0; k < 48; k += 2) if (k % 16 > 4) { gone.push_back(k); pre.push_back({DEL, k, 0}); }
    std::vector<Op> al = {I(1), D(0), D(16), G(16), U_(16)};
    add(Par{u}, 50, orderof(24, 1, 2), pre, gone, pairs(al, 2, 1), B2, "prog");
    auto P1 = programs(al, 1);
    add(Par{u}, 50, orderof(24, 1, 2), pre, gone, combos({P1, P1, P1}, true), B2, "three");
    std::vector<Op> a2 = {I(1), I(33), D(0), G(0), G(30), U_(30)};
    add(Par{u}, 36, orderof(16, 0, 2), {}, {}, pairs(a2, 2, 1), B2, "progsplit");
    auto P2 = programs(a2, 1);
    add(Par{u}, 36, orderof(16, 0, 2), {}, {}, combos({P2, P2, P2}, true), B2, "threesplit");
  }
}
}  // namespace
void FBT_ADD(mc::Suite &s, bool conc, bool th) { if (conc) concs(s, th); else seqs(s, th); }
