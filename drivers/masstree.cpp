// MassTree.  C15 sequential map, C16 linearizability, C17 scans, C18 deferred reclamation.
#include "compiler.hh"
#include "masstree.hh"
#include "kvthread.hh"
#include "masstree_tcursor.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "kv.h"
using namespace kv;
typedef Masstree::Str Str;

volatile mrcu_epoch_type active_epoch = 1;
volatile uint64_t globalepoch = 1;
volatile bool recovering = false;

template <int LW, int IW> struct Pars : Masstree::nodeparams<LW, IW> {
  typedef uint64_t value_type;
  typedef threadinfo threadinfo_type;
};

struct Par { int uni = 0, width = 0; bool own_setup = true, leak = false; };

static std::string rep(const std::string &s, int n) { std::string r; for (int i = 0; i < n; i++) r += s; return r; }
static const std::vector<std::vector<std::string>> &universes() {
  static std::vector<std::vector<std::string>> u;
  if (!u.empty()) return u;
  std::vector<std::string> a;
  for (int i = 0; i < 40; i++) { std::string s(8, '\0'); s[6] = (char)((i + 1) >> 6); s[7] = (char)((i + 1) * 4); a.push_back(s); }
  u.push_back(a);                                                                       // 0: 8-byte keys, one layer
  std::string P = "layerone", Q = "layertwo";
  u.push_back({"a", "layeron", P, P + "a", P + "b", P + "bcdefgh", P + "c", P + Q, P + Q + "x", P + Q + "y", P + Q + "z", P + "zzzzzzzzzz", "z"});   // 1: two layers
  std::vector<std::string> c = {""};
  for (int i = 1; i <= 10; i++) c.push_back(std::string(i, '\0'));
  c.push_back(std::string("\0a", 2)); c.push_back("a"); c.push_back(std::string("a\0", 2)); c.push_back(std::string("a\0\0\0\0\0\0\0", 8)); c.push_back(std::string("a\0\0\0\0\0\0\0\0", 9)); c.push_back("ab"); c.push_back(rep("\xff", 8)); c.push_back(rep("\xff", 9));
  u.push_back(c);                                                                       // 2: lengths, zero bytes
  std::string L = rep("longlong", 4);
  u.push_back({L + "a", L + "b", L + "bbbbbbbbbbbbbbbbbbbbbbbbb", L + rep("c", 60), L + rep("c", 61), L + rep("c", 60) + "d", L, rep("m", 255)});   // 3: long keys, deep layers
  for (auto &v : u) std::sort(v.begin(), v.end());
  // universe 4: suffixes of growing size in one leaf
  u.push_back({"sfx00001a", "sfx00002" + rep("b", 10), "sfx00003" + rep("c", 40), "sfx00004" + rep("d", 100), "sfx00005" + rep("e", 9), "sfx00006f"});
  // universe 5: many keys in one second layer, so that leaves and internodes below it split and vanish
  std::vector<std::string> f = {"a"};
  for (int i = 0; i < 8; i++) f.push_back(P + std::string(1, 'a' + i));
  f.push_back("z");
  u.push_back(f);
  // universe 6: many 8-byte keys below one layer
  std::vector<std::string> g = a; g.resize(32); g.push_back(P + "a"); g.push_back(P + "b");
  u.push_back(g);
  return u;
}
struct Keys { char b[48][272]; int len[48]; };
static Keys g_keys[8];
static void mk_keys() {
  auto &u = universes();
  for (size_t i = 0; i < u.size(); i++) for (size_t k = 0; k < u[i].size(); k++) { memset(g_keys[i].b[k], 0x55, 272); memcpy(g_keys[i].b[k], u[i][k].data(), u[i][k].size()); g_keys[i].len[k] = u[i][k].size(); }
}

struct Iface {
  virtual void init(threadinfo &) = 0;
  virtual void destroy(threadinfo &) = 0;
  virtual long run(const Op &, Out &, threadinfo &) = 0;
  int uni = 0, U = 0;
  Str key(int k) { return Str(g_keys[uni].b[k], g_keys[uni].len[k]); }
  int find(Str s) { for (int k = 0; k < U; k++) if (g_keys[uni].len[k] == s.len && !memcmp(g_keys[uni].b[k], s.s, s.len)) return k; return -777; }
};
template <class P> struct Tab : Iface {
  Masstree::basic_table<P> t;
  typedef Masstree::tcursor<P> cur;
  struct Scan {
    Iface *i; Out *o; long left;
    template <class S, class K> void visit_leaf(const S &, const K &, threadinfo &) {}
    bool visit_value(Str key, uint64_t v, threadinfo &) { o->kv(i->find(key), v); return --left > 0; }
  };
  void init(threadinfo &ti) override { t.initialize(ti); }
  void destroy(threadinfo &ti) override { t.destroy(ti); }
  long run(const Op &op, Out &o, threadinfo &ti) override {
    switch (op.op) {
      case GET: { uint64_t v; return t.get(key(op.k), v, ti) ? v : 0; }
      case INS: { cur lp(t, key(op.k)); bool f = lp.find_insert(ti); if (!f) lp.value() = op.v; fence(); lp.finish(f ? 0 : 1, ti); return !f; }
      case UPS: { cur lp(t, key(op.k)); bool f = lp.find_insert(ti); long old = f ? lp.value() : 0; lp.value() = op.v; fence(); lp.finish(1, ti); return old; }
      case UPD: { cur lp(t, key(op.k)); bool f = lp.find_locked(ti); if (f) lp.value() = op.v; lp.finish(0, ti); return f; }
      case DEL: { cur lp(t, key(op.k)); bool f = lp.find_locked(ti); lp.finish(f ? -1 : 0, ti); return f; }
      case SCAN: case X1: { Scan s{this, &o, op.v}; return t.scan(key(op.k), op.op == SCAN, s, ti); }
      case RSCAN: case X2: { Scan s{this, &o, op.v}; return t.rscan(key(op.k), op.op == RSCAN, s, ti); }
    }
    return -98;
  }
};
static void advance() { globalepoch = globalepoch + 2; active_epoch = threadinfo::min_active_epoch(); }   // as mtd's epoch tick

struct Ad {
  Iface *t = nullptr;
  threadinfo *ti[mc::MAXT];
  long live0 = 0;
  Ad(const Par &p) {
    leak = p.leak;
    threadinfo::allthreads = nullptr; globalepoch = active_epoch = 1;
    for (auto &x : ti) x = nullptr;
    for (int i = 1; i < 5; i++) ti[i] = threadinfo::make(threadinfo::TI_PROCESS, i);
    ti[0] = p.own_setup ? threadinfo::make(threadinfo::TI_MAIN, 0) : ti[1];          // or thread 1 goes on with what the set-up left to it
    live0 = mc::live_blocks();
    if (p.width == 3) t = new Tab<Pars<3, 3>>(); else if (p.width == 4) t = new Tab<Pars<4, 3>>(); else t = new Tab<Pars<15, 15>>();
    t->uni = p.uni; t->U = universes()[p.uni].size();
    ti[0]->rcu_start(); t->init(*ti[0]); ti[0]->rcu_stop();
  }
  void tinit(int) {}
  void tfini(int) {}
  long run(int th, const Op &op, Out &o) {
    threadinfo &x = *ti[th];
    if (op.op >= 100) return run(2, Op{op.op - 100, op.k, op.v}, o);   // set-up by another thread
    if (op.op == X3) { advance(); return 0; }
    if (op.op == X4) { x.rcu_start(); x.rcu_stop(); return 0; }        // an idle round of the client loop
    x.rcu_start();
    long r = t->run(op, o, x);
    x.rcu_stop();
    return r;
  }
  void full(int th, Out &o) {
    ti[th]->rcu_start();
    Op op{SCAN, 0, 1000};
    // from the empty string, so that nothing is left out
    op.k = t->U; g_keys[t->uni].len[t->U] = 0;
    t->run(op, o, *ti[th]);
    ti[th]->rcu_stop();
  }
  void drain() {
    for (int i = 0; i < 60; i++) { advance(); for (auto *x : ti) if (x) x->rcu_quiesce(); for (auto *x : ti) if (x) x->rcu_stop(); }
  }
  bool leak = false;
  void finish() {
    if (!leak) return;
    drain();
    long n = mc::live_blocks();
    drain();
    if (mc::live_blocks() != n) mc::fail("memory handed to deferred reclamation is still being freed after 60 epochs");
    ti[0]->rcu_start(); t->destroy(*ti[0]); ti[0]->rcu_stop();
    drain();
    long rest = mc::live_blocks() - live0 - 1;
    if (rest > 0) mc::fail("%ld allocated blocks remain after the table has been destroyed and every thread was idle for many epochs", rest);
  }
  void audit() {}
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    if (op.op == X3 || op.op == X4) return true;
    if (op.op == X1) return std_spec(Op{SCAN, op.k + 1, op.v}, 0, d, n, st, U) && r == n / 2;
    if (op.op == X2) return std_spec(Op{RSCAN, op.k - 1, op.v}, 0, d, n, st, U) && r == n / 2;
    if (op.op == SCAN || op.op == RSCAN) return std_spec(op, 0, d, n, st, U) && r == n / 2;
    return std_spec(op, r, d, n, st, U);
  }
};
struct Sit {
  std::string name; int uni, width;
  std::vector<int> pre;          // keys inserted
  std::vector<int> gone;         // then removed again
  std::vector<int> hot;          // keys operated on
  bool own = true;
};
static std::vector<int> range(int a, int b, int step = 1) { std::vector<int> r; for (int i = a; step > 0 ? i <= b : i >= b; i += step) r.push_back(i); return r; }
static std::vector<Sit> sits() {
  return {
    {"empty", 0, 3, {}, {}, {3, 7}},
    {"leaf full", 0, 3, {2, 4, 6}, {}, {4, 5, 1}},
    {"leaf full at the end", 0, 3, {2, 4, 6}, {}, {7, 2}},
    {"two leaves", 0, 3, {2, 4, 6, 8}, {}, {5, 8, 3}},
    {"leaf about to empty", 0, 3, {2, 4, 6, 8, 10, 12}, {8}, {6, 10, 12}},
    {"middle leaf with one key", 0, 3, range(1, 8), {4, 5, 7}, {3, 6, 2}},
    {"internode full", 0, 3, range(2, 16, 2), {}, {9, 15, 3}},
    {"three levels", 0, 3, range(1, 20), {}, {10, 30, 15}},
    {"three levels thinned", 0, 3, range(1, 16), {2, 3, 5, 6, 8, 9, 11, 12}, {1, 4, 7}},
    {"suffix meets suffix", 1, 3, {5}, {}, {3, 6, 2}},
    {"suffix conflict two layers", 1, 3, {9}, {}, {10, 8, 2}},
    {"layer with two keys", 1, 3, {3, 5, 0}, {}, {4, 3, 5}},
    {"layer with one key", 1, 3, {3, 5, 0, 12}, {5}, {3, 2, 4}},
    {"empty layer waiting", 1, 3, {3, 5, 0, 12}, {3, 5}, {3, 2, 11}, false},
    {"two empty layers waiting", 1, 3, {8, 9, 0, 12}, {8, 9}, {9, 7, 3}, false},
    {"layer full", 1, 3, {3, 4, 5}, {}, {6, 11, 7}},
    {"leaf full, layer inside", 1, 3, {0, 3, 4, 1}, {}, {2, 5, 12}},
    {"layer of several leaves", 5, 3, range(1, 8), {}, {1, 8, 9}},
    {"layer of several leaves, thinned", 5, 3, range(0, 8), {2, 3, 4, 5, 6, 7, 8}, {1, 5, 0}, false},
    {"layer with internode, emptied", 5, 3, range(0, 8), range(1, 8), {1, 4, 0}, false},
    {"suffix bag", 4, 4, {0, 1}, {}, {2, 3, 0}},
    {"suffix bag replaced", 4, 4, {0, 1, 2}, {1}, {3, 4, 1}},
    {"lengths", 2, 15, {0, 2, 4, 6, 8, 9, 10}, {}, {1, 9, 10}},
    {"long", 3, 4, {0, 3}, {}, {5, 4, 6}},
  };
}
static void seqs(mc::Suite &s, const std::string &prop, bool th) {
  for (auto &q : sits()) {
    auto *c = new KVSeq<Ad, Par>();
    c->par.uni = q.uni; c->par.width = q.width; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
    for (int k : q.pre) c->init[k] = 50 + k;
    c->order = q.pre; c->use_full = true;
    for (int k : q.gone) c->pre.push_back({DEL, k, 0});
    std::set<int> ks(q.hot.begin(), q.hot.end()); for (size_t i = 0; i < q.gone.size() && i < 2; i++) ks.insert(q.gone[i]);
    if (!q.pre.empty()) { ks.insert(q.pre[0]); ks.insert(q.pre.back()); }
    for (int k : ks) { c->letters.push_back({UPS, k, 300 + k}); c->letters.push_back({DEL, k, 0}); }
    c->letters.push_back({INS, q.hot[0], 400 + q.hot[0]});
    c->letters.push_back({X3, 0, 0});
    if (prop == "C18") c->letters.push_back({X4, 0, 0});
    c->depth = th ? 5 : 4;
    bool small = c->U < 20;
    for (int k = 0; k < c->U; k++) if (small || ks.count(k) || ks.count(k - 1)) { c->probes.push_back({SCAN, k, 100}); c->probes.push_back({X1, k, 100}); c->probes.push_back({RSCAN, k, 100}); c->probes.push_back({X2, k, 100}); c->probes.push_back({SCAN, k, 2}); c->probes.push_back({X2, k, 1}); }
    c->finish_setup(q.name);
    s.seq.push_back(c);
  }
}
struct Conc : KVConc<Ad, Par> {
  bool final_leak = false;
  long scan_lim(const mc::OpRec &o) override { return o.b; }
};
static void concs(mc::Suite &s, const std::string &prop, bool th) {
  std::set<std::string> seen;
  auto add = [&](const Sit &q, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag, const std::vector<Op> &extra) {
    for (auto &p : ps) {
      auto *c = new Conc();
      c->par.uni = q.uni; c->par.width = q.width; c->par.own_setup = q.own; c->par.leak = prop == "C18"; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
      for (int k : q.pre) c->init[k] = 50 + k;
      c->order = q.pre; c->progs = p; c->bound = bound; c->fill = 0; c->pre = extra;
      if (prop != "C16") c->interval = {SCAN, RSCAN};
      c->build_name(q.name + "/" + tag);
      // keys removed during the set-up are absent when the threads start
      for (int k : q.gone) c->gone.push_back(k);
      if (seen.insert(c->name).second) s.conc.push_back(c);
    }
  };
  for (auto &q : sits()) {
    std::vector<Op> extra; for (int k : q.gone) extra.push_back({DEL, k, 0});
    auto present = [&](int k) { return std::count(q.pre.begin(), q.pre.end(), k) && !std::count(q.gone.begin(), q.gone.end(), k); };
    std::vector<Op> wr, rd;
    for (int k : q.hot) wr.push_back(present(k) ? Op{DEL, k, 0} : Op{UPS, k, 1});
    wr.push_back(present(q.hot[0]) ? Op{UPS, q.hot[0], 1} : Op{INS, q.hot[0], 1});
    for (int k : q.hot) rd.push_back({GET, k, 0});
    if (!q.pre.empty()) { rd.push_back({GET, q.pre[0], 0}); wr.push_back({present(q.pre.back()) ? DEL : INS, q.pre.back(), 1}); }
    bool gc = !q.own;
    std::vector<Op> al = wr; for (auto &o : rd) al.push_back(o);
    std::vector<Prog> reap = {{{X4, 0, 0}}};
    if (gc) { extra.push_back({X3, 0, 0}); }
    Prog lw;                                     // one long writer: the hot keys come and go twice
    for (int r = 0; r < 4; r++) for (int k : q.hot) lw.push_back(present(k) == (r % 2 == 0) ? Op{DEL, k, 0} : Op{UPS, k, 1 + r});
    if (prop == "C16") {
      if (gc) { add(q, combos({reap, programs(al, 1)}, false), th ? 255 : 4, "reap", extra); add(q, combos({reap, programs(wr, 1), programs(al, 1)}, false), th ? 3 : 1, "reap3", extra); }
      add(q, pairs(al, 1, 1), th ? 255 : 4, "1x1", extra);
      std::vector<Op> w2(wr.begin(), wr.begin() + std::min<size_t>(3, wr.size())); w2.push_back(rd[0]);
      add(q, combos({programs(w2, 2), programs(w2, 1)}, false), th ? 4 : 2, "2x1", extra);
      if (th) { auto P = programs(w2, 1); add(q, combos({P, P, P}, true), 2, "three", extra); }
      add(q, combos({{lw}, programs(al, 1)}, false), th ? 3 : 2, "long", extra);
    } else if (prop == "C17") {
      int U = universes()[q.uni].size();
      std::vector<Op> sc = {{SCAN, 0, 100}, {RSCAN, U - 1, 100}, {SCAN, q.hot[0], 2}, {RSCAN, q.hot.back(), 2}};
      if (gc) add(q, combos({reap, programs({sc[0], sc[1]}, 1)}, false), 255, "reap", extra);
      add(q, combos({programs(wr, 1), programs(sc, 1)}, false), th ? 255 : 5, "scan", extra);
      std::vector<Op> w2(wr.begin(), wr.begin() + std::min<size_t>(3, wr.size()));
      add(q, combos({programs(w2, 2), programs({sc[0], sc[1]}, 1)}, false), th ? 3 : 2, "2xscan", extra);
      if (th) add(q, combos({programs(w2, 1), programs(w2, 1), programs({sc[0], sc[1]}, 1)}, false), 2, "2+scan", extra);
      add(q, combos({{lw}, programs(sc, 1)}, false), th ? 3 : 2, "long", extra);
    } else if (q.name == "empty") {
      // a layer's collection is pending in one thread; meanwhile others grow and shrink the layer above, then let its old nodes go
      for (int n : {8}) {
        Sit r{"pending collection over a root that went away", 6, 3, {}, {}, {}, false};
        r.pre = range(0, 7); r.pre.push_back(32); r.pre.push_back(33);
        r.gone = {};
        std::vector<Op> ex = {{DEL, 32, 0}, {DEL, 33, 0}};
        for (int k = 8; k < 8 + n && k < 32; k++) ex.push_back({100 + UPS, k, 70 + k});
        for (int k = std::min(31, 7 + n); k >= 1; k--) ex.push_back({100 + DEL, k, 0});
        for (int i = 0; i < 8; i++) { ex.push_back({100 + X3, 0, 0}); ex.push_back({100 + X4, 0, 0}); }
        add(r, {{{{X4, 0, 0}}, {{GET, 0, 0}}}}, 255, "", ex);
        ((Conc *)s.conc.back())->gone = range(1, 7); ((Conc *)s.conc.back())->gone.push_back(32); ((Conc *)s.conc.back())->gone.push_back(33);
      }
    } else {   // C18: epoch ticks by another thread, removals followed by idle rounds
      std::vector<Op> w2(wr.begin(), wr.begin() + std::min<size_t>(3, wr.size()));
      std::vector<Prog> wp; for (auto &o : wr) wp.push_back({o, {X4, 0, 0}});
      std::vector<Prog> tick = {{{X3, 0, 0}}}, tick2 = {{{X3, 0, 0}, {X3, 0, 0}}};
      std::vector<Op> r2(rd.begin(), rd.begin() + std::min<size_t>(2, rd.size())); r2.push_back({SCAN, q.pre.empty() ? 0 : q.pre[0], 100}); r2.push_back({RSCAN, q.hot[0], 100});
      add(q, combos({wp, programs(r2, 1), tick2}, false), th ? 4 : 2, "tick", extra);
      std::vector<Prog> wpp; for (auto &o : w2) wpp.push_back({o, {X3, 0, 0}, {X4, 0, 0}});
      add(q, combos({wpp, programs(r2, 1)}, false), th ? 255 : 3, "self tick", extra);
      add(q, combos({wpp, wpp}, true), th ? 3 : 2, "both tick", extra);
      Prog lt;                                   // one long writer that ticks and reclaims after every operation
      for (int r = 0; r < 3; r++) for (int k : q.hot) if (lt.size() + 3 <= mc::MAXOPS) { lt.push_back(present(k) == (r % 2 == 0) ? Op{DEL, k, 0} : Op{UPS, k, 1 + r}); lt.push_back({X3, 0, 0}); lt.push_back({X4, 0, 0}); }
      add(q, combos({{lt}, programs(r2, 1)}, false), th ? 3 : 2, "long", extra);
      std::vector<Prog> tr; for (auto &o : r2) tr.push_back({{X3, 0, 0}, o});
      std::vector<Prog> wpd; for (auto &o : wr) wpd.push_back({o, {X3, 0, 0}, {X4, 0, 0}});
      add(q, combos({wpd, tr}, false), th ? 4 : 2, "reader ticks", extra);
    }
  }
}
int main(int argc, char **argv) {
  mk_keys();
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C15" ? "every operation sequence applied to the real tree and compared with the reference map after every step" : "every interleaving of each concurrent program on the real tree";
    if (prop == "C15") seqs(s, prop, th); else concs(s, prop, th);
    return s;
  });
}
