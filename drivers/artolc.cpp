// ARTOLC tree.  C05 sequential map, C06 linearizability, C07 reclamation, C08 range lookups.
#include "Tree.h"
#include "art_common.h"
using namespace kv;
using art::Par;

static int g_uni;      // fixed per configuration (set before the exploration starts)
static TID tid_of(int k, long v) { return (TID)v << 9 | (k + 1); }
static void load(TID tid, Key &key) {
  const std::string &s = art::keystr(g_uni, (int)(tid & 511) - 1);
  key.set(s.data(), s.size());
  key[s.size()] = 0;
}
struct Ad {
  ART_OLC::Tree *t;
  ART::ThreadInfo *ti[mc::MAXT];
  long live0;
  Ad(const Par &p) { live0 = mc::live_blocks(); t = new ART_OLC::Tree(load); for (auto &x : ti) x = nullptr; }
  void tinit(int i) { ti[i] = new ART::ThreadInfo(t->getThreadInfo()); }
  void tfini(int i) { delete ti[i]; ti[i] = nullptr; }
  static void mk(int k, Key &key) { const std::string &s = art::keystr(g_uni, k); key.set(s.data(), s.size()); key[s.size()] = 0; }
  long decode(int k, TID r) { if (!r) return 0; if ((int)(r & 511) - 1 != k) return -777; return r >> 9; }
  long run(int th, const Op &op, Out &o) {
    Key key; mk(op.k, key);
    ART::ThreadInfo &x = *ti[th];
    switch (op.op) {
      case UPS: case X2: t->insert(key, tid_of(op.k, op.v), x); return -1;
      case X1: t->remove(key, tid_of(op.k, op.v), x); return -1;                       // removes the key if it has this value
      case GET: return decode(op.k, t->lookup(key, x));
      case X4: { ART::ThreadInfo y = t->getThreadInfo(); long r = decode(op.k, t->lookup(key, y)); return r; }   // registers itself
      case SCAN: case ITER: {                                                                   // [k, end of universe] / [k, v)
        Key end, cont;
        if (op.op == ITER) mk(op.v, end); else { std::string z(40, '\xff'); end.set(z.data(), z.size()); end[z.size()] = 0; }
        TID res[300]; size_t n = 0, lim = op.op == ITER ? 300 : op.v;
        bool more = t->lookupRange(key, end, cont, res, lim, n, x);
        for (size_t i = 0; i < n; i++) o.kv((int)(res[i] & 511) - 1, res[i] >> 9);
        if (!more) return -1;
        for (int k = 0; k < (int)art::universes()[g_uni].size(); k++) { Key c; mk(k, c); if (c == cont) return k; }
        return -2;
      }
    }
    return -98;
  }
  void full(int th, Out &o) {
    Out q; int from = 0, U = art::universes()[g_uni].size();
    while (from >= 0 && from < U) { q.n = 0; long r = run(th, Op{SCAN, from, 250}, q); for (int i = 0; i < q.n; i++) o.add(q.d[i]); if (r >= 0 && r <= from) { o.add(-1); return; } from = r; }
  }
  void finish() {
    tfini(0);
    delete t;
    if (mc::live_blocks() != live0) mc::fail("%ld allocated blocks remain after the tree has been destroyed", mc::live_blocks() - live0);
  }
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    if (op.op == X2) { st[op.k] = op.v; return true; }
    if (op.op == X1) { if (st[op.k] == op.v) st[op.k] = 0; return true; }
    if (op.op == X4) return r == st[op.k];
    if (op.op == SCAN || op.op == ITER) {
      int to = op.op == ITER ? op.v : U; long lim = op.op == ITER ? 300 : op.v;
      std::vector<long> e; long more = -1;
      for (int k = op.k; k < to; k++) if (st[k]) { if ((long)e.size() == 2 * lim) { more = k; break; } e.push_back(k); e.push_back(st[k]); }
      return r == more && (int)e.size() == n && std::equal(e.begin(), e.end(), d);
    }
    return std_spec(op, r, d, n, st, U);
  }
};
template <class B> struct Uni : B {     // selects the universe
  void setup() override { g_uni = B::par.uni; B::setup(); }
};
struct Conc : Uni<KVConc<Ad, Par>> {
  long scan_lim(const mc::OpRec &s) override { return s.op == ITER ? 300 : s.b; }
  long scan_hi(const mc::OpRec &s) override { return s.op == ITER ? s.b : U; }
  bool dels(int op) override { return op == X1; }
  bool creates(int op) override { return op == X2; }
  bool effective(const mc::OpRec &o) override { return o.op == X2; }
  void final_phase() override {
    Out out;
    for (int k = 0; k < U; k++) { out.n = 0; mc::fin(a->run(0, Op{GET, k, 0}, out)); }
    if (final_scan) { out.n = 0; a->full(0, out); mc::fin(out.n); for (int i = 0; i < out.n; i++) mc::fin(out.d[i]); }
    a->finish();
  }
};
typedef Uni<KVSeq<Ad, Par>> Seq;

static void seqs(mc::Suite &s, bool th) {
  for (auto &q : art::situations(th)) {
    auto *c = new Seq();
    c->par.uni = q.uni; c->U = art::universes()[q.uni].size(); c->init.assign(c->U, 0);
    for (int k : q.pre) c->init[k] = 50 + k;
    c->order = q.pre; c->use_full = true;
    for (int k : q.hot) { c->letters.push_back({X2, k, 300 + k}); c->letters.push_back({X1, k, 300 + k}); }
    c->letters.push_back({X1, q.pre[0], 50 + q.pre[0]});
    c->letters.push_back({X1, q.pre.back(), 50 + q.pre.back()});
    c->letters.push_back({X1, q.hot[0], 999});
    if (q.pre.size() > 2) c->letters.push_back({X1, q.pre[1], 50 + q.pre[1]});
    c->depth = c->U < 12 ? (th ? 5 : 4) : (th ? 4 : 3);
    for (int k : q.hot) { c->probes.push_back({SCAN, k, 1}); c->probes.push_back({SCAN, k, 3}); for (int k2 : q.hot) c->probes.push_back({ITER, k, k2}); }
    if (c->U < 12) for (int k = 0; k < c->U; k++) { c->probes.push_back({SCAN, k, 100}); c->probes.push_back({SCAN, k, 2}); for (int k2 = 0; k2 < c->U; k2++) c->probes.push_back({ITER, k, k2}); }
    c->finish_setup(q.name);
    s.seq.push_back(c);
  }
}
static void concs(mc::Suite &s, const std::string &prop, bool th) {
  auto add = [&](const art::Situation &q, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag) {
    for (auto &p : ps) {
      auto *c = new Conc();
      c->par.uni = q.uni; c->U = art::universes()[q.uni].size(); c->init.assign(c->U, 0);
      for (int k : q.pre) c->init[k] = 50 + k;
      c->order = q.pre; c->progs = p; c->bound = bound; c->fill = 0;
      if (prop == "C08") { c->interval = {SCAN, ITER}; }
      c->final_scan = true;
      c->build_name(q.name + "/" + tag);
      s.conc.push_back(c);
    }
  };
  for (auto &q : art::situations(th)) {
    auto present = [&](int k) { return std::count(q.pre.begin(), q.pre.end(), k) > 0; };
    std::vector<Op> al, wr, rd;
    for (int k : q.hot) {
      if (present(k)) wr.push_back({X1, k, 50 + k}); else { wr.push_back({X2, k, 300 + k}); }
      rd.push_back({GET, k, 0});
    }
    wr.push_back({X1, q.hot[0], present(q.hot[0]) ? 50L + q.hot[0] : 300L + q.hot[0]});
    wr.push_back({X2, q.hot[0], 600});
    wr.push_back({X1, q.hot[0], 300 + q.hot[0]});
    wr.push_back({X1, q.pre[0], 50 + q.pre[0]});
    wr.push_back({X1, q.pre.back(), 50 + q.pre.back()});
    rd.push_back({GET, q.pre[0], 0});
    rd.push_back({GET, q.pre.back(), 0});
    al = wr; for (auto &o : rd) al.push_back(o);
    int n = q.pre.size();
    int big = n > 30 ? 3 : 255;
    Prog lw;                                   // one long writer: the hot keys come and go twice
    for (int r = 0; r < 4; r++) for (int k : q.hot) {
      bool rem = present(k) == (r % 2 == 0);
      if (rem) lw.push_back({X1, k, r < 2 && present(k) ? 50L + k : 300L + k}); else lw.push_back({X2, k, 300L + k});
    }
    if (prop == "C06") {
      add(q, pairs(al, 1, 1), th ? 255 : big, "1x1");
      if (n <= 17) {
        std::vector<Op> w2(wr.begin(), wr.begin() + std::min<size_t>(3, wr.size())); w2.push_back(rd[0]);
        std::vector<Op> a2(wr.begin(), wr.begin() + 2); a2.push_back(rd[0]); a2.push_back(rd[1]);
        add(q, combos({programs(w2, 2), programs(a2, 1)}, false), th ? 4 : 2, "2x1");
        if (th) { auto P = programs(a2, 1); add(q, combos({P, P, P}, true), 2, "three"); }
        add(q, combos({{lw}, programs(al, 1)}, false), th ? 2 : 1, "long");
      }
    } else if (prop == "C07") {
      std::vector<Op> w2 = wr; rd.push_back({X4, q.hot[0], 0});
      add(q, combos({programs(w2, 1), programs(rd, 1)}, false), big, "1x1");
      add(q, combos({programs(w2, 1), programs(w2, 1)}, true), big, "1x1");
      std::vector<Op> w3(wr.begin(), wr.begin() + 2), r2(rd.begin(), rd.begin() + 2);
      if (n <= 17) add(q, combos({{lw}, programs(rd, 1)}, false), th ? 2 : 1, "long");
      if (n <= 17) add(q, combos({programs(w3, 2), programs(r2, 1)}, false), th ? 4 : 2, "2x1");
      if (th) add(q, combos({programs(w3, 1), programs(w3, 1), programs(r2, 1)}, false), 2, "three");
    } else if (prop == "C08") {
      std::vector<Op> sc = {{SCAN, 0, 200}, {SCAN, q.hot[0], 200}, {SCAN, 0, 2}, {ITER, q.pre[0], q.hot[1]}, {ITER, std::min(q.hot[0], q.hot[2]), std::max(q.hot[0], q.hot[2])}};
      add(q, combos({programs(wr, 1), programs(sc, 1)}, false), n > 10 ? 3 : 255, "scan");
      std::vector<Op> w3(wr.begin(), wr.begin() + 3), s2(sc.begin(), sc.begin() + 2);
      if (n <= 6) add(q, combos({programs(w3, 2), programs(s2, 1)}, false), th ? 4 : 2, "2xscan");
      if (n <= 17) add(q, combos({{lw}, programs(sc, 1)}, false), th ? 2 : 1, "long");
      if (th && n <= 6) add(q, combos({programs(w3, 1), programs(w3, 1), programs(s2, 1)}, false), 2, "2+scan");
    }
  }
}
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C05" ? "every operation sequence applied to the real tree and compared with the reference map after every step" : "every interleaving of each concurrent program on the real tree";
    if (prop == "C05") seqs(s, th); else concs(s, prop, th);
    return s;
  });
}
