// Wormhole.  C22 sequential map, C23 linearizability, C24 iterators and range deletion.
#include <stdlib.h>
#include "wh_ops.h"
#include "kv.h"
using namespace kv;
extern "C" {
extern const WhOps wh_a, wh_b, wh_c;
void wh_fail(const char *m) { mc::fail("%s", m); }
int mlock(const void *, size_t) { return 0; }
int backtrace(void **, int) { mc::fail("an internal assertion failed"); return 0; }
// Every slab object is a block of its own here, so that a use after free is seen.  (The slab itself is checked by C25.)
struct Slab { size_t size; int tag; };
static int slabs;
struct slab *__wrap_slab_create(uint64_t sz, uint64_t) { Slab *s = (Slab *)malloc(sizeof(Slab)); s->size = sz; s->tag = 1 + slabs++ % 15; return (struct slab *)s; }
void *__wrap_slab_alloc_unsafe(struct slab *p) { Slab *s = (Slab *)p; void *r = aligned_alloc(64, s->size); if (!r) r = aligned_alloc(64, s->size); memset(r, 0, s->size); mc::tag_block(r, s->tag); return r; }
void *__wrap_slab_alloc_safe(struct slab *p) { void *q = malloc(1); if (!q) return q; free(q); return __wrap_slab_alloc_unsafe(p); }
void __wrap_slab_free_unsafe(struct slab *, void *q) { free(q); }
void __wrap_slab_free_safe(struct slab *, void *q) { free(q); }
void __wrap_slab_free_all(struct slab *p) { mc::free_tagged(((Slab *)p)->tag); }
bool __wrap_slab_reserve_unsafe(struct slab *, uint64_t) { void *p = malloc(1); free(p); return p != nullptr; }       // after it, slab_alloc_unsafe does not fail
void __wrap_slab_destroy(struct slab *p) { mc::free_tagged(((Slab *)p)->tag); free(p); }
}

static const WhOps *VAR[] = {&wh_a, &wh_b, &wh_c};
static int hclass(const std::string &k) { unsigned h = wh_a.hash(k.data(), k.size()); return (h & 1) * 2 + (__builtin_bswap32(h) & 1); }
static const std::vector<std::vector<std::string>> &universes() {
  static std::vector<std::vector<std::string>> u;
  if (!u.empty()) return u;
  std::vector<std::string> a;
  for (int i = 0; i < 60; i++) { char b[8]; snprintf(b, sizeof b, "k%02d", i); a.push_back(b); }
  u.push_back(a);                                                       // 0: short keys
  std::vector<std::string> b = {""};
  for (size_t i = 0; i < b.size() && b[i].size() < 4; i++) { b.push_back(b[i] + "a"); b.push_back(b[i] + "b"); }
  u.push_back(b);                                                       // 1: every string over {a,b} of length <= 4
  std::vector<std::string> c = {""};
  for (size_t i = 0; i < c.size() && c[i].size() < 4; i++) { c.push_back(c[i] + std::string(1, '\0')); c.push_back(c[i] + "\xff"); }
  u.push_back(c);                                                       // 2: the same over {0x00,0xff}
  std::vector<std::string> d;
  for (int i = 0; i <= 40; i++) d.push_back(std::string(i, 'x'));
  for (int i = 0; i < 6; i++) d.push_back(std::string(i * 7, 'x') + "y");
  u.push_back(d);                                                       // 3: every key a prefix of the next
  std::vector<std::string> e;
  for (int i = 0; i < 12; i++) for (int j = 0; j < 4; j++) e.push_back(std::string(3 * i, 'p') + (char)('a' + i) + std::string(20, 'q') + (char)('0' + j));
  u.push_back(e);                                                       // 4: long keys with shared prefixes of many lengths
  std::vector<std::string> f;
  for (int i = 0; i < 150; i++) f.push_back(std::string(1, (char)(i * 37 % 251)) + std::string(1, (char)(i * 11 % 7)) + "z");
  u.push_back(f);                                                       // 5: many keys
  // 6: groups of twelve keys, a leaf each.  The hash tables of wh_a start with two slots of eight entries: the groups are chosen so
  // that 9 have both places in the first slot, 8 in the second, and 4 + 4 may move.
  std::vector<std::string> g;
  int want[4] = {9, 4, 4, 8};
  for (int i = 1; i < 255; i++) {
    char c = (char)i;
    int cls = hclass(std::string(1, c));
    if (want[cls]-- > 0) for (int j = 0; j < 12; j++) g.push_back(std::string(1, c) + std::string(1, (char)j));
  }
  u.push_back(g);
  for (auto &v : u) { std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); }
  return u;
}
struct Keys { char b[300][64]; int len[300]; };
static Keys g_keys[8];
static void mk_keys() {
  auto &u = universes();
  for (size_t i = 0; i < u.size(); i++) for (size_t k = 0; k < u[i].size(); k++) { memcpy(g_keys[i].b[k], u[i][k].data(), u[i][k].size()); g_keys[i].len[k] = u[i][k].size(); }
}
struct Par { int var = 0, api = 0, uni = 0; bool manual = false; };

enum { FILL = 20, PUTF = 22, MRGF };     // a group of keys put, or deleted if it is there; put and merge with one allocation failing
struct Ad {
  const WhOps *w; int api, uni, U; bool manual;
  void *map; void *r[mc::MAXT];
  long live0;
  Ad(const Par &p) {
    w = VAR[p.var]; api = p.api; uni = p.uni; U = universes()[uni].size(); manual = p.manual;
    slabs = 0;
    live0 = mc::live_blocks();
    map = w->create(api);
    for (auto &x : r) x = nullptr;
  }
  void tinit(int t) { r[t] = w->ref(map, api); if (api == 0) w->park(r[t]); }
  void tfini(int t) { w->unref(r[t], api); r[t] = nullptr; }
  const char *kp(int k) { return g_keys[uni].b[k]; }
  unsigned kn(int k) { return g_keys[uni].len[k]; }
  int find(const char *s, unsigned n) { for (int k = 0; k < U; k++) if (kn(k) == n && !memcmp(kp(k), s, n)) return k; return -777; }
  struct Cb { Ad *a; Out *o; };
  static void cb(void *p, const char *k, unsigned n, long v) { Cb *c = (Cb *)p; c->o->kv(c->a->find(k, n), v); }
  long run(int th, const Op &op, Out &o) {
    void *x = r[th];
    if (op.op == X3) { if (api == 0) w->resume(x); return 0; }                  // with Par::manual: the thread stays registered as active between X3 and X4
    if (op.op == X4) { if (api == 0) w->park(x); return 0; }
    if (op.op == LB) { w->refresh(x); return 0; }
    bool rp = api == 0 && (!manual || th == 0);
    if (rp) w->resume(x);
    long res = run1(x, op, o);
    if (rp) w->park(x);
    return res;
  }
  long run1(void *x, const Op &op, Out &o) {
    const char *k = kp(op.k); unsigned n = kn(op.k);
    int f; long old;
    switch (op.op) {
      case FILL: if (w->probe(api, x, k, n)) { for (int i = op.k; i < op.k + op.v; i++) if (!w->del(api, x, kp(i), kn(i))) return -99; return -2; }
        for (int i = op.k; i < op.k + op.v; i++) if (!w->put(api, x, kp(i), kn(i), i + 100)) return -98; return -1;
      case PUTF: case MRGF: {
        mc::fail_alloc(op.v % 10);
        long r = op.op == PUTF ? w->put(api, x, k, n, op.v) : w->merge(api, x, k, n, op.v, 4);
        bool hit = !mc::alloc_pending();
        mc::fail_alloc(0);
        return r ? -1 : hit ? -2 : -98;
      }
      case UPS: return w->put(api, x, k, n, op.v) ? -1 : -98;
      case GET: return w->get(api, x, k, n, op.k & 1);
      case HAS: return w->probe(api, x, k, n);
      case DEL: return w->del(api, x, k, n);
      case FIND: old = w->inp(api, x, k, n, 0, 0, &f); return f == (old != 0) ? old : -99;
      case UPDI: old = w->inp(api, x, k, n, op.v, 1, &f); return f == (old != 0) ? old : -99;
      case MRG: return w->merge(api, x, k, n, op.v, 0);
      case INS: return w->merge(api, x, k, n, op.v, 1) == 0;
      case X1: return w->merge(api, x, k, n, op.v, 2);
      case UPD: return w->merge(api, x, k, n, op.v, 3) != 0;
      case DELR: return op.v >= U ? w->delr(api, x, k, n, nullptr, 0) : w->delr(api, x, k, n, kp(op.v), kn(op.v));
      case SCAN: { Cb c{this, &o}; return w->scan(api, x, k, n, 0, op.v, 0, cb, &c); }
      case ITER: { Cb c{this, &o}; return w->scan(api, x, k, n, op.v, 3, 1, cb, &c); }      // skip v, then next
      case X2: { Cb c{this, &o}; return w->scan(api, x, k, n, 0, op.v, 2, cb, &c); }        // then seek twice more before the iterator is dropped
    }
    return -98;
  }
  void full(int th, Out &o) {
    int e = find("", 0);
    void *x = r[th];
    if (api == 0) w->resume(x);
    Cb c{this, &o};
    w->scan(api, x, "", 0, 0, 1000, 0, cb, &c);
    if (api == 0) w->park(x);
    (void)e;
  }
  void finish() {
    tfini(0);
    w->destroy(map);
    if (mc::live_blocks() != live0) mc::fail("%ld allocated blocks remain after the map has been destroyed", mc::live_blocks() - live0);
  }
  void audit() {}
  // in-place writes keep the length of the stored value, which v % 5 determines
  static long inplace(long v, long old) { return v - v % 5 + old % 5; }
  static bool spec(const Op &op, long r, const long *d, int n, long *st, int U) {
    long old = op.k >= 0 && op.k < U ? st[op.k] : 0;
    switch (op.op) {
      case FILL: for (int i = op.k; i < op.k + op.v; i++) st[i] = old ? 0 : i + 100; return r == (old ? -2 : -1);
      case PUTF: case MRGF: if (r == -1) st[op.k] = op.v; return r == -1 || r == -2;
      case X3: case X4: case LB: return true;
      case FIND: case X1: return r == old;
      case UPDI: if (r != old) return false; if (old) st[op.k] = inplace(op.v, old); return true;
      case UPD: if (r != (old != 0)) return false; if (old) st[op.k] = inplace(op.v, old); return true;
      case MRG: if (r != old) return false; st[op.k] = op.v; return true;
      case DELR: { long c = 0; for (int k = op.k; k < std::min<long>(U, op.v); k++) if (st[k]) { c++; st[k] = 0; } return r == c; }
      case X2: return r == n / 2 && std_spec(Op{SCAN, op.k, op.v}, 0, d, n, st, U);
      case SCAN: return r == n / 2 && std_spec(op, 0, d, n, st, U);
      case ITER: { int k = op.k; long s = op.v; while (k < U && (!st[k] || s--)) k++; return r == n / 2 && std_spec(Op{SCAN, k, 3}, 0, d, n, st, U); }
    }
    return std_spec(op, r, d, n, st, U);
  }
};
static std::vector<int> range(int a, int b, int step = 1) { std::vector<int> r; for (int i = a; step > 0 ? i <= b : i >= b; i += step) r.push_back(i); return r; }
struct Sit { std::string name; int uni; std::vector<int> pre, gone, hot; };
// node capacity n: the fill levels are relative to it
static std::vector<Sit> sits(int n) {
  std::vector<Sit> r;
  int U3 = universes()[3].size(), U1 = universes()[1].size();
  auto upto = [&](int uni) { return (int)universes()[uni].size() - 1; };
  r.push_back({"empty", 0, {}, {}, {3, 20}});
  if (n <= 32) {
    r.push_back({"leaf full", 0, range(1, 2 * n - 1, 2).size() <= 60 && 2 * n - 1 < 60 ? range(1, 2 * n - 1, 2) : range(1, n), {}, {n, 0, 2 * n < 60 ? 2 * n : 59}});
    r.push_back({"two leaves", 0, range(0, std::min(59, n + 4)), {}, {n / 2, n + 5 < 60 ? n + 5 : 59, 0, n + 3}});
    r.push_back({"two leaves about to merge", 0, range(0, n), range(2, n - 3), {0, n - 1, 1}});
    r.push_back({"three leaves, middle nearly empty", 0, range(0, std::min(59, 2 * n)), range(n * 3 / 4, std::min(59, n * 3 / 2 + n / 4)), {n * 3 / 4 - 1, n * 3 / 2 + n / 4 + 1 < 60 ? n * 3 / 2 + n / 4 + 1 : 59, n}});
    r.push_back({"binary strings", 1, range(0, U1 - 4), {}, {U1 - 1, U1 - 2, U1 - 3}});
    r.push_back({"binary strings downwards", 1, range(U1 - 1, 4, -1), {}, {0, 1, 2}});
    r.push_back({"bytes 00 and ff", 2, range(0, U1 - 2), {}, {U1 - 1, 0, 15}});
    r.push_back({"bytes 00 and ff, thinned", 2, range(0, U1 - 1), range(3, U1 - 4), {1, U1 - 1, 14}});
    r.push_back({"chain of prefixes", 3, range(0, U3 - 3), {}, {U3 - 1, U3 - 2, 5}});
    r.push_back({"chain of prefixes, long first", 3, range(U3 - 1, 3, -1), range(20, U3 - 6), {0, 19, U3 - 5}});
    r.push_back({"long keys", 4, range(0, upto(4) - 2), {}, {upto(4), upto(4) - 1, 11}});
    r.push_back({"long keys, thinned", 4, range(upto(4), 0, -1), range(5, upto(4) - 9), {4, upto(4), 7}});
    if (n == 16) r.push_back({"many leaves", 5, range(0, upto(5) - 1), {}, {upto(5), 70, 10}});
    if (n == 16) r.push_back({"many leaves, thinned", 5, range(upto(5), 0, -1), range(10, 120), {9, 121, 60}});
  } else {
    r.push_back({"leaf full", 5, range(0, n - 1), {}, {n, 3, 149}});
    r.push_back({"two leaves", 5, range(0, n + 10), range(20, 30), {n + 12, 3, 25}});
    r.push_back({"two leaves thinned", 5, range(0, 149), range(15, 110), {3, 149, 111}});
  }
  return r;
}
static void seqs(mc::Suite &s, const std::string &prop, bool th) {
  for (int var = 0; var < 3; var++) {
    if (var && !__builtin_cpu_supports("avx2")) continue;
    for (int api = 0; api < 3; api++) {
      if (api == 1 && var) continue;
      for (auto &q : sits(VAR[var]->kpn)) {
        auto *c = new KVSeq<Ad, Par>();
        c->par.var = var; c->par.api = api; c->par.uni = q.uni; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
        for (int k : q.pre) c->init[k] = 50 + k;
        c->order = q.pre; c->use_full = true;
        for (int k : q.gone) c->pre.push_back({DEL, k, 0});
        std::set<int> ks(q.hot.begin(), q.hot.end()); if (!q.gone.empty()) ks.insert(q.gone[q.gone.size() / 2]);
        bool big = c->U > 60;
        if (prop == "C22") {
          for (int k : ks) { c->letters.push_back({UPS, k, 300 + k}); c->letters.push_back({DEL, k, 0}); }
          int k = q.hot[0];
          c->letters.push_back({MRG, k, 405}); c->letters.push_back({INS, q.hot[1], 410}); c->letters.push_back({UPDI, k, 505}); c->letters.push_back({UPD, q.hot[1], 515}); c->letters.push_back({X1, k, 0});
          for (int j : ks) { c->probes.push_back({HAS, j, 0}); c->probes.push_back({FIND, j, 0}); }
          c->depth = big ? 3 : th ? 5 : var == 2 ? 3 : api == 1 ? 3 : 4;
        } else {
          int U = c->U, a = q.pre.empty() ? 1 : q.pre[q.pre.size() / 3], b = q.pre.empty() ? 5 : q.pre[q.pre.size() * 2 / 3];
          if (a > b) std::swap(a, b);
          for (int k : ks) { c->letters.push_back({UPS, k, 300 + k}); if (k == q.hot[0]) c->letters.push_back({DEL, k, 0}); }
          for (auto p : std::vector<std::pair<int, int>>{{a, b}, {b, a}, {0, a}, {b, U}, {0, U}, {a, a + 1}, {a + 1, U - 1}, {U - 1, a}, {a, a}}) c->letters.push_back({DELR, p.first, p.second});
          for (int k = 0; k < U; k += big ? 7 : 1) { c->probes.push_back({SCAN, k, 4}); c->probes.push_back({ITER, k, k % 5}); if (api != 2) c->probes.push_back({X2, k, 2}); }
          c->probes.push_back({ITER, 0, 20}); c->probes.push_back({ITER, 2, 200}); c->probes.push_back({SCAN, 0, 0});
          c->depth = big ? 2 : th ? 4 : 3;
          if (var == 2 || api == 1) c->depth = th ? 3 : 2;
        }
        const char *A[] = {"wormhole", "whsafe", "whunsafe"};
        c->finish_setup(std::string(A[api]) + ", " + VAR[var]->name + ": " + q.name);
        s.seq.push_back(c);
      }
    }
  }
}
// churn in the hash table of anchors: whole groups of keys come and go
static void churn(mc::Suite &s, bool th) {
  auto &u = universes()[6];
  std::vector<int> cls[4];                                     // first key of each group, by class
  for (size_t i = 0; i < u.size(); i += 12) cls[hclass(u[i].substr(0, 1))].push_back(i);
  int root = hclass("");
  for (int api = 0; api < 3; api += 2) for (int v = 0; v < 3; v++) {
    auto *c = new KVSeq<Ad, Par>();
    c->par.api = api; c->par.uni = 6; c->U = u.size(); c->init.assign(c->U, 0); c->use_full = true;
    std::vector<int> pre;
    int own = root == 0 ? 7 : 8;                               // fill the first slot with entries that cannot move
    for (int i = 0; i < own; i++) pre.push_back(cls[0][i]);
    for (int i = 0; i < (v == 0 ? 2 : 1); i++) pre.push_back(cls[2][i]);                  // movable entries at home in the second one
    for (int i = 0; i < (root == 3 ? 6 : 7) - (v == 0 ? 2 : 1) - (v == 2); i++) pre.push_back(cls[3][i]);
    for (int g : pre) for (int i = g; i < g + 12; i++) { c->init[i] = 50 + i; c->order.push_back(i); }
    std::set<int> hot = {cls[0][0], cls[0][own], cls[1][0], cls[1][1], cls[2][0], cls[2][2], cls[3][6], cls[3][7]};
    for (int g : hot) { c->letters.push_back({FILL, g, 12});}
    for (size_t g = 0; g < u.size(); g += 12) c->probes.push_back({HAS, (int)g, 0});
    c->depth = th ? 6 : 4;
    const char *A[] = {"wormhole", "whsafe", "whunsafe"};
    c->finish_setup(std::string(A[api]) + ": groups of keys come and go, " + std::to_string(v));
    s.seq.push_back(c);
  }
  // an allocation fails
  for (int api = 0; api < 3; api++) for (auto &q : sits(16)) {
    auto *c = new KVSeq<Ad, Par>();
    c->par.api = api; c->par.uni = q.uni; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
    for (int k : q.pre) c->init[k] = 50 + k;
    c->order = q.pre; c->use_full = true;
    for (int k : q.gone) c->pre.push_back({DEL, k, 0});
    for (int k : q.hot) { c->letters.push_back({UPS, k, 300 + k}); c->letters.push_back({DEL, k, 0}); for (int n = 1; n <= 8; n++) { c->letters.push_back({PUTF, k, 600 + n}); if (k == q.hot[0]) c->letters.push_back({MRGF, k, 700 + n}); } }
    for (int j : q.hot) c->probes.push_back({HAS, j, 0});
    c->depth = th ? 3 : 2;
    const char *A[] = {"wormhole", "whsafe", "whunsafe"};
    c->finish_setup(std::string(A[api]) + ", allocation failures: " + q.name);
    s.seq.push_back(c);
  }
}
struct Conc : KVConc<Ad, Par> {
  long scan_lim(const mc::OpRec &o) override { return o.b; }
  bool effective(const mc::OpRec &o) override { return o.op == UPS || o.op == MRG || o.r != 0; }
};
static void concs(mc::Suite &s, const std::string &prop, bool th) {
  std::set<std::string> seen;
  auto add = [&](const Sit &q, int api, std::vector<std::vector<Prog>> ps, int bound, const std::string &tag, bool manual = false) {
    const char *A[] = {"wormhole", "whsafe"};
    for (auto &p : ps) {
      auto *c = new Conc();
      c->par.uni = q.uni; c->par.api = api; c->par.manual = manual; c->U = universes()[q.uni].size(); c->init.assign(c->U, 0);
      for (int k : q.pre) c->init[k] = 50 + k;
      c->order = q.pre; c->progs = p; c->bound = bound; c->fill = 0;
      for (int k : q.gone) { c->pre.push_back({DEL, k, 0}); c->gone.push_back(k); }
      if (prop == "C24") c->interval = {SCAN};
      c->build_name(std::string(A[api]) + " " + q.name + "/" + tag);
      if (seen.insert(c->name).second) s.conc.push_back(c);
    }
  };
  for (auto &q : sits(16)) {
    if (q.uni == 5) continue;
    auto present = [&](int k) { return std::count(q.pre.begin(), q.pre.end(), k) && !std::count(q.gone.begin(), q.gone.end(), k); };
    std::vector<Op> wr, rd;
    for (int k : q.hot) wr.push_back(present(k) ? Op{DEL, k, 0} : Op{UPS, k, 1});
    wr.push_back({MRG, q.hot[0], 1});
    for (int k : q.hot) rd.push_back({GET, k, 0});
    rd.push_back({HAS, q.hot[0], 0});
    std::vector<Op> al = wr; for (auto &o : rd) al.push_back(o);
    al.push_back({UPD, q.hot[0], 1}); al.push_back({FIND, q.hot[1], 0});
    std::vector<Op> w2(wr.begin(), wr.begin() + std::min<size_t>(2, wr.size()));
    Prog lw;                                     // one long writer: the hot keys come and go twice
    for (int r = 0; r < 4; r++) for (int k : q.hot) lw.push_back(present(k) == (r % 2 == 0) ? Op{DEL, k, 0} : Op{UPS, k, 1 + r});
    if (prop == "C23") {
      add(q, 0, pairs(al, 1, 1), th ? 255 : 3, "1x1");
      add(q, 1, pairs(w2, 1, 1), th ? 255 : 3, "1x1");
      std::vector<Op> w3 = w2; w3.push_back(rd[0]);
      add(q, 0, combos({programs(w3, 2), programs(w3, 1)}, false), th ? 3 : 1, "2x1");
      std::vector<Prog> act; for (auto &o : w3) act.push_back({{X3, 0, 0}, o, {LB, 0, 0}, rd[1], {X4, 0, 0}});      // active in between
      add(q, 0, combos({act, act}, true), th ? 3 : 2, "active", true);
      add(q, 0, combos({{lw}, programs(al, 1)}, false), th ? 3 : 2, "long");
      auto P = programs(w3, 1);
      add(q, 0, combos({P, P, P}, true), th ? 2 : 1, "three");
    } else {
      int U = universes()[q.uni].size();
      std::vector<Op> sc = {{SCAN, 0, 100}, {SCAN, q.hot[0], 3}};
      add(q, 0, combos({programs(wr, 1), programs(sc, 1)}, false), th ? 255 : 3, "scan");
      add(q, 1, combos({programs(w2, 1), programs(sc, 1)}, false), th ? 255 : 2, "scan");
      add(q, 0, combos({{lw}, programs(sc, 1)}, false), th ? 3 : 2, "long");
      add(q, 0, combos({programs(w2, 2), programs({sc[0]}, 1)}, false), th ? 3 : 1, "2xscan");
      add(q, 0, combos({programs(sc, 1), programs(sc, 1), programs(w2, 1)}, false), th ? 2 : 1, "scan2");
    }
  }
}
int main(int argc, char **argv) {
  mk_keys();
  return mc::run_suite(argc, argv, [](const std::string &prop, const std::string &tier) {
    mc::Suite s;
    bool th = tier == "thorough";
    s.rule = prop == "C22" ? "every operation sequence applied to the real map and compared with the reference map after every step" : "every operation sequence and every interleaving of each concurrent program on the real map";
    if (prop == "C22") churn(s, th);
    if (prop != "C23") seqs(s, prop, th);
    if (prop != "C22") concs(s, prop, th);
    return s;
  });
}
