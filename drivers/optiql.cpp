// OptiQL tree.  C09 sequential map (insert, update, remove, lookup, both range lookups), C10 linearizability and range scans.
#include "Tree.h"
#include "art_common.h"
using namespace kv;
using art::Par;

static int g_uni;
static TID tid_of(int k, long v) { return (TID)v << 9 | (k + 1); }
static void load(TID tid, Key &key) {
  const std::string &s = art::keystr(g_uni, (int)(tid & 511) - 1);
  key.set(s.data(), s.size());
  key[s.size()] = 0;
}
// nodes the tree gives away; they stay readable until the end, as lookups may still be inside
static void *g_retired[4096];
static std::atomic<int> g_nretired{0};
static void retire(void *p) { g_retired[g_nretired.fetch_add(1)] = p; }

struct Ad {
  ART_OLC_OptiQL::Tree *t;
  long live0;
  Ad(const Par &) { live0 = mc::live_blocks(); t = new ART_OLC_OptiQL::Tree(load, retire); }
  void tinit(int) {}
  void tfini(int) {}
  static void mk(int k, Key &key) { const std::string &s = art::keystr(g_uni, k); key.set(s.data(), s.size()); key[s.size()] = 0; }
  long decode(int k, TID r) { if (!r) return 0; if ((int)(r & 511) - 1 != k) return -777; return r >> 9; }
  long run(int, const Op &op, Out &o) {
    Key key; mk(op.k, key);
    switch (op.op) {
      case UPS: case X2: { bool r = t->insert(key, tid_of(op.k, op.v)); if (op.op == UPS) { if (!r) t->update(key, tid_of(op.k, op.v)); return -1; } return r; }
      case X3: return t->update(key, tid_of(op.k, op.v));
      case UPDI: { bool r = false; for (int i = 0; i < op.v; i++) r = t->update(key, tid_of(op.k, i + 1)); return r; }      // many updates
      case X1: return t->remove(key, tid_of(op.k, op.v));
      case GET: return decode(op.k, t->lookup(key));
      case SCAN: case ITER: case LB: {        // [k, end) limited / [k, v) / from k on, limited, through the other range lookup
        Key end, cont;
        TID res[300]; size_t n = 0, lim = op.op == ITER ? 300 : op.v;
        bool more = false;
        if (op.op == LB) t->lookupRange(key, res, lim, n);
        else {
          if (op.op == ITER) mk(op.v, end); else { std::string z(45, '\xff'); end.set(z.data(), z.size()); end[z.size()] = 0; }
          more = t->lookupRange(key, end, cont, res, lim, n);
        }
        for (size_t i = 0; i < n; i++) o.kv((int)(res[i] & 511) - 1, res[i] >> 9);
        if (!more) return -1;
        for (int k = 0; k < (int)art::universes()[g_uni].size(); k++) { Key c; mk(k, c); if (c == cont) return k; }
        return -2;
      }
    }
    return -98;
  }
  void full(int th, Out &o) {
    Out q; int from = 0, U = art::universes()[g_uni].size();
    while (from >= 0 && from < U) { q.n = 0; long r = run(th, Op{SCAN, from, 250}, q); for (int i = 0; i < q.n; i++) o.add(q.d[i]); if (r >= 0 && r <= from) { o.add(-1); return; } from = r; }
  }
  void finish() {
    delete t;
    for (int i = 0; i < g_nretired; i++) ::operator delete(g_retired[i]);
    if (mc::live_blocks() != live0) mc::fail("%ld allocated blocks remain after the tree and all retired nodes have been freed", mc::live_blocks() - live0);
  }
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    if (op.op == X2) { if (r != (st[op.k] == 0)) return false; if (!st[op.k]) st[op.k] = op.v; return true; }
    if (op.op == X3) { if (r != (st[op.k] != 0)) return false; if (st[op.k]) st[op.k] = op.v; return true; }
    if (op.op == UPDI) { if (r != (st[op.k] != 0)) return false; if (st[op.k]) st[op.k] = op.v; return true; }
    if (op.op == X1) { bool is = st[op.k] == op.v; if (is) st[op.k] = 0; return r == is; }
    if (op.op == SCAN || op.op == ITER || op.op == LB) {
      int to = op.op == ITER ? op.v : U; long lim = op.op == ITER ? 300 : op.v;
      std::vector<long> e; long more = -1;
      for (int k = op.k; k < to; k++) if (st[k]) { if ((long)e.size() == 2 * lim) { more = k; break; } e.push_back(k); e.push_back(st[k]); }
      if (op.op == LB) more = -1;
      return r == more && (int)e.size() == n && std::equal(e.begin(), e.end(), d);
    }
    return std_spec(op, r, d, n, st, U);
  }
};
template <class B> struct Uni : B {
  void setup() override { g_uni = B::par.uni; B::setup(); }
};
struct Conc : Uni<KVConc<Ad, Par>> {
  long scan_lim(const mc::OpRec &s) override { return s.op == ITER ? 300 : s.b; }
  long scan_hi(const mc::OpRec &s) override { return s.op == ITER ? s.b : U; }
  bool dels(int op) override { return op == X1; }
  bool creates(int op) override { return op == X2; }
  bool writes(int op) override { return op == X1 || op == X2 || op == X3; }
  bool effective(const mc::OpRec &o) override { return o.r != 0; }
};
typedef Uni<KVSeq<Ad, Par>> Seq;

static void seqs(mc::Suite &s, bool th) {
  auto sits = art::situations(th, 15);
  for (auto &q : sits) {
    auto *c = new Seq();
    c->par.uni = q.uni; c->U = art::universes()[q.uni].size(); c->init.assign(c->U, 0);
    for (int k : q.pre) c->init[k] = 50 + k;
    c->order = q.pre; c->use_full = true;
    for (int k : q.hot) { c->letters.push_back({X2, k, 300 + k}); c->letters.push_back({X1, k, 300 + k}); }
    c->letters.push_back({X1, q.pre[0], 50 + q.pre[0]});
    c->letters.push_back({X1, q.pre.back(), 50 + q.pre.back()});
    c->letters.push_back({X3, q.hot[0], 700}); c->letters.push_back({X1, q.hot[0], 700});
    c->letters.push_back({X3, q.pre[0], 701});
    if (q.pre.size() > 2) c->letters.push_back({X1, q.pre[1], 50 + q.pre[1]});
    c->depth = c->U < 12 ? (th ? 5 : 4) : (th ? 4 : 3);
    for (int k : q.hot) { c->probes.push_back({SCAN, k, 1}); c->probes.push_back({SCAN, k, 3}); c->probes.push_back({LB, k, 2}); for (int k2 : q.hot) c->probes.push_back({ITER, k, k2}); }
    if (c->U < 12) for (int k = 0; k < c->U; k++) { c->probes.push_back({SCAN, k, 100}); c->probes.push_back({SCAN, k, 2}); c->probes.push_back({LB, k, 100}); for (int k2 = 0; k2 < c->U; k2++) c->probes.push_back({ITER, k, k2}); }
    c->finish_setup(q.name);
    s.seq.push_back(c);
  }
  // frequently updated keys: the tree materialises the path of a hot key
  for (auto &q : sits) {
    if (q.name != "tiny" && q.name != "mix" && q.name != "pfx3" && q.name != "merge2") continue;
    auto *c = new Seq();
    c->par.uni = q.uni; c->U = art::universes()[q.uni].size(); c->init.assign(c->U, 0);
    for (int k : q.pre) c->init[k] = 50 + k;
    c->order = q.pre;
    for (int k : q.pre) { c->letters.push_back({UPDI, k, 14000}); c->letters.push_back({X1, k, 14000}); if (c->letters.size() > 5) break; }
    for (int k : q.hot) { c->letters.push_back({X2, k, 300 + k}); c->letters.push_back({X1, k, 300 + k}); }
    c->depth = th ? 4 : 3;
    for (int k : q.hot) c->probes.push_back({SCAN, k, 2});
    c->finish_setup("hot/" + q.name);
    s.seq.push_back(c);
  }
}
static void concs(mc::Suite &s, bool th) {
  auto add = [&](const art::Situation &q, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag) {
    for (auto &p : ps) {
      auto *c = new Conc();
      c->par.uni = q.uni; c->U = art::universes()[q.uni].size(); c->init.assign(c->U, 0);
      for (int k : q.pre) c->init[k] = 50 + k;
      c->order = q.pre; c->progs = p; c->bound = bound; c->fill = 0;
      c->interval = {SCAN, ITER, LB};
      c->final_scan = true;
      c->build_name(q.name + "/" + tag);
      s.conc.push_back(c);
    }
  };
  for (auto &q : art::situations(th, 15)) {
    auto present = [&](int k) { return std::count(q.pre.begin(), q.pre.end(), k) > 0; };
    std::vector<Op> wr, rd;
    for (int k : q.hot) {
      if (present(k)) wr.push_back({X1, k, 50 + k}); else wr.push_back({X2, k, 300 + k});
      rd.push_back({GET, k, 0});
    }
    wr.push_back({X1, q.hot[0], present(q.hot[0]) ? 50L + q.hot[0] : 300L + q.hot[0]});
    wr.push_back({X3, q.hot[1], 600});
    wr.push_back({X1, q.hot[0], 300 + q.hot[0]});
    wr.push_back({X1, q.pre[0], 50 + q.pre[0]});
    wr.push_back({X3, q.pre[0], 601});
    wr.push_back({X3, q.pre.back(), 602});
    wr.push_back({X1, q.pre.back(), 50 + q.pre.back()});
    rd.push_back({GET, q.pre[0], 0});
    rd.push_back({GET, q.pre.back(), 0});
    std::vector<Op> al = wr; for (auto &o : rd) al.push_back(o);
    int n = q.pre.size();
    int big = n > 30 ? 3 : 255;
    add(q, pairs(al, 1, 1), th ? 255 : big, "1x1");
    if (n <= 17) {
      std::vector<Op> w2(wr.begin(), wr.begin() + std::min<size_t>(3, wr.size())); w2.push_back(rd[0]);
      std::vector<Op> a2(wr.begin(), wr.begin() + 2); a2.push_back(rd[0]); a2.push_back({X3, q.pre[0], 601});
      add(q, combos({programs(w2, 2), programs(a2, 1)}, false), th ? 4 : 2, "2x1");
      if (th) { auto P = programs(a2, 1); add(q, combos({P, P, P}, true), 2, "three"); }
      Prog lw;                                   // one long writer: the hot keys come and go twice
      for (int r = 0; r < 4; r++) for (int k : q.hot) {
        bool rem = present(k) == (r % 2 == 0);
        if (rem) lw.push_back({X1, k, r < 2 && present(k) ? 50L + k : 300L + k}); else lw.push_back({X2, k, 300L + k});
      }
      add(q, combos({{lw}, programs(al, 1)}, false), th ? 2 : 1, "long");
    }
    std::vector<Op> sc = {{SCAN, 0, 200}, {SCAN, q.hot[0], 200}, {LB, 0, 2}, {ITER, q.pre[0], q.hot[1]}};
    std::vector<Op> ws(wr.begin(), wr.begin() + 5);
    add(q, combos({programs(ws, 1), programs(sc, 1)}, false), n > 10 ? 2 : 255, "scan");
    std::vector<Op> w3(wr.begin(), wr.begin() + 3), s2(sc.begin(), sc.begin() + 2);
    if (th && n <= 6) add(q, combos({programs(w3, 2), programs(s2, 1)}, false), 3, "2xscan");
  }
}
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C09" ? "every operation sequence applied to the real tree and compared with the reference map after every step" : "every interleaving of each concurrent program on the real tree";
    if (prop == "C09") seqs(s, th); else concs(s, th);
    return s;
  });
}
