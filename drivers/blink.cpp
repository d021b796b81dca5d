// BLinkTree with both latch types.  C03 sequential map, C04 linearizability.
#include "BLinkTree/b_link_tree.h"
#include "kv.h"
using namespace kv;

struct Par { int inner = 4, leaf = 4; double thr = 1.0; };
constexpr long STRIDE = 2;

template <class L> struct Ad {
  BLinkTree<long, long, L> *t;
  Ad(const Par &p) { t = new BLinkTree<long, long, L>(p.inner, p.leaf, p.thr, 0.25, p.thr, 0.25); }
  void tinit(int) {}
  void tfini(int) {}
  static long key(int k) { return (k + 1) * STRIDE; }
  static int idx(long raw) { return raw % STRIDE == 0 ? raw / STRIDE - 1 : -77; }
  long run(int, const Op &op, Out &o) {
    switch (op.op) {
      case UPS: { bool r = t->Insert(key(op.k), op.v); if (!r) t->Update(key(op.k), op.v); return -1; }   // set-up only
      case INS: return t->Insert(key(op.k), op.v);
      case UPD: return t->Update(key(op.k), op.v);
      case GET: { long v = -5; bool f = t->Search(key(op.k), v); return f ? v : 0; }
      case X3: { long v = -5; bool f = t->Search(key(op.k) + 1, v); return f; }
      case X4: return t->Update(key(op.k) + 1, 5);
      case LB: { long v = -5; bool f = t->SearchUnsafe(key(op.k), v); return f ? v : 0; }
      case SCAN: case X1: case X2: {
        std::vector<std::pair<long, long>> out;
        bool r;
        if (op.op == SCAN) r = t->ScanFixed(key(op.k), op.v, out);
        else if (op.op == X2) r = t->ScanFixed(key(op.k) + 1, op.v, out);       // start between keys
        else r = t->ScanRange(key(op.k), key(op.v), out);                      // [k, v)
        for (auto &p : out) o.kv(idx(p.first), p.second);
        return r;
      }
    }
    return -98;
  }
  void full(int, Out &o) {
    std::vector<std::pair<long, long>> out;
    t->ScanLeaf(out);
    for (auto &p : out) o.kv(idx(p.first), p.second);
  }
  void finish() { delete t; }
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    if (op.op == X3 || op.op == X4) return r == 0;
    if (op.op == LB) return r == st[op.k];
    if (op.op == SCAN || op.op == X1 || op.op == X2) {
      int from = op.op == X2 ? op.k + 1 : op.k, to = op.op == X1 ? op.v : U;
      long lim = op.op == X1 ? U : op.v;
      std::vector<long> e;
      bool any = false;
      for (int k = std::max(from, 0); k < U; k++) if (st[k]) { any = true; if (k < to && (long)e.size() < 2 * lim) { e.push_back(k); e.push_back(st[k]); } }
      return r == any && (int)e.size() == n && std::equal(e.begin(), e.end(), d);    // reports whether a key not below the start exists
    }
    return std_spec(op, r, d, n, st, U);
  }
};
typedef Ad<StandardSharedMutex> A1;
typedef Ad<RSpinSharedLatch> A2;

template <class A> static void add_seq(mc::Suite &s, const std::string &nm, Par p, int U, std::vector<int> order, int depth, std::vector<Op> letters, bool light = false) {
  auto *c = new KVSeq<A, Par>();
  c->par = p; c->U = U; c->init.assign(U, 0);
  for (int k : order) c->init[k] = 50 + k;
  c->order = order; c->letters = letters; c->depth = depth;
  for (int k = light ? 0 : -1; k < U; k++) {
    c->probes.push_back({X3, k, 0}); c->probes.push_back({X4, k, 0}); c->probes.push_back({X2, k, 2});
    if (k < 0) continue;
    c->probes.push_back({LB, k, 0});
    c->probes.push_back({SCAN, k, light ? 5 : 100});
    if (!light || k % 4 == 0) { c->probes.push_back({SCAN, k, 1}); c->probes.push_back({X1, k, std::min(U, k + 3)}); c->probes.push_back({X1, k, U}); }
    if (!light) c->probes.push_back({SCAN, k, 3});
  }
  c->finish_setup(nm);
  s.seq.push_back(c);
}
template <class A> static void seqs(mc::Suite &s, const std::string &nm, bool th) {
  for (Par p : {Par{4, 4, 1.0}, Par{6, 6, 0.75}, Par{6, 4, 0.75}}) {
    std::string pn = nm + "/i" + std::to_string(p.inner) + "l" + std::to_string(p.leaf);
    std::vector<Op> L;
    for (int k = 0; k < 6; k++) L.push_back({INS, k, 100 + k});
    L.push_back({UPD, 2, 777});
    add_seq<A>(s, pn + "/empty6", p, 6, {}, th ? 7 : p.inner == 4 ? 6 : 5, L);
    for (int n : {5, 8, 12, 17, 24, 40}) {
      if (!th && (n == 8 || n == 17) && p.inner != 4) continue;
      for (int dir = 0; dir < 3; dir++) {
        std::vector<int> ord;
        int U = 2 * n;
        for (int i = 0; i < n; i++) { int j = dir == 0 ? i : dir == 1 ? n - 1 - i : (i & 1 ? n / 2 + (i + 1) / 2 : n / 2 - i / 2); if (j >= 0 && j < n) ord.push_back(2 * j); }
        std::vector<Op> l2;
        for (int k = 0; k < U; k++) if (n < 17 || k % 2 || k % 8 == 0) l2.push_back({INS, k, 200 + k});
        l2.push_back({UPD, 0, 900}); l2.push_back({UPD, U - 2, 901}); l2.push_back({UPD, 1, 902});
        add_seq<A>(s, pn + "/pre" + std::to_string(n) + "d" + std::to_string(dir), p, U, ord, (th && n <= 17) || n <= 5 ? 3 : 2, l2, n > 12);
      }
    }
  }
}
template <class A> static void concs(mc::Suite &s, const std::string &nm, bool th, bool spin) {
  auto add = [&](int U, std::vector<int> order, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag, Par par = Par()) {
    for (auto &p : ps) {
      auto *c = new KVConc<A, Par>();
      c->par = par;
      c->U = U; c->init.assign(U, 0); for (int k : order) c->init[k] = 50 + k;
      c->order = order; c->progs = p; c->bound = bound; c->fill = 0;
      c->build_name(nm + "/" + tag);
      s.conc.push_back(c);
    }
  };
  auto G = [](int k) { return Op{GET, k, 0}; };
  auto I = [](int k) { return Op{INS, k, 0}; };
  auto U_ = [](int k) { return Op{UPD, k, 0}; };
  auto S = [](int k, long n) { return Op{SCAN, k, n}; };
  auto R = [](int k, long to) { return Op{X1, k, to}; };
  int UB = spin ? (th ? 5 : 3) : 255;      // the spin latch multiplies events: bounded
  for (int n = 0; n <= 4; n++) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(2 * i);
    std::vector<Op> al = {I(0), I(1), I(9), U_(0), U_(1), G(0), G(1), S(0, 8)};
    add(10, ord, pairs(al, 1, 1), UB, "leaf" + std::to_string(n));
  }
  // ascending fills: rightmost leaf full, then parent full, then grandparent full
  for (int n = 4; n <= 14; n++) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
    std::vector<Op> al = {I(n), I(n + 1), U_(n - 1), U_(n), G(n), G(n - 1), S(n - 3, 8), R(0, n)};
    if (spin && !th && n % 2) continue;
    add(n + 2, ord, pairs(al, 1, 1), !spin && !th && n > 11 ? 4 : UB, "asc" + std::to_string(n));
  }
  // inserts in the middle
  for (int n : {4, 6, 8, 9, 11}) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(2 * i);
    std::vector<Op> al = {I(1), I(3), I(5), I(2 * n - 3), U_(2), G(1), G(2), G(4), S(1, 9), R(1, 6)};
    if (spin && !th && n > 6) continue;
    add(2 * n, ord, pairs(al, 1, 1), UB, "mid" + std::to_string(n));
  }
  // one long writer: several splits in a row between two steps of the other thread (leaves, then parents)
  for (int n : {4, 8}) for (int m : {4, 6, 12}) for (int dir = 0; dir < 2; dir++) {
    if (spin && !th && m > 6) continue;
    int W = m + 2;                            // m new keys between the last present ones
    std::vector<int> ord; for (int i = 0; i < n - 1; i++) ord.push_back(i);
    ord.push_back(n - 1 + W);
    Prog w; for (int i = 0; i < m; i++) w.push_back(Op{INS, n - 1 + (dir ? m - i : i + 1), 0});
    int last = n - 1 + W;
    std::vector<Op> al = {G(last), U_(last), G(n - 2), I(last - 1), I(last + 1), S(last, 3), S(n - 2, 20), R(0, last + 1)};
    auto ps = combos({{w}, programs(al, 1)}, false);
    add(last + 2, ord, ps, th ? (spin || m > 6 ? 2 : 3) : spin || m > 6 ? 1 : 2, "long" + std::to_string(n) + "." + std::to_string(m) + (dir ? "d" : "u"));
  }
  for (int n : {3, 5, 7, 10}) {
    std::vector<int> ord; for (int i = 0; i < n; i++) ord.push_back(i);
    std::vector<Op> al = {I(n), I(n + 1), U_(n - 1), G(n), G(n + 1)};
    if (!th && n == 10) continue;
    int b2 = spin ? 2 : (th ? 5 : 3);
    add(n + 2, ord, pairs(al, 2, 1), b2, "two" + std::to_string(n));
    auto P1 = programs(al, 1);
    if (spin && (!th || n != 3)) continue;   // two spinning readers change the latch word for ever: three threads only with the mutex latch
    add(n + 2, ord, combos({P1, P1, P1}, true), spin ? 1 : th ? 3 : 2, "three" + std::to_string(n));
  }
}
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C03" ? "every operation sequence applied to the real tree and compared with the reference map after every step"
                           : "every interleaving of each concurrent program on the real tree, checked for linearizability";
    if (prop == "C03") { seqs<A1>(s, "mutex", th); if (th) seqs<A2>(s, "spin", th); }
    else { concs<A1>(s, "mutex", th, false); concs<A2>(s, "spin", th, true); }
    return s;
  });
}
