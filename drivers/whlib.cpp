// Wormhole's lib.c.  C25: spin lock, mutex, read-write lock, quiescent states, slab allocator.
#include <stdlib.h>
#include <string.h>
#include <set>
#include "mc.h"
#include "whlib.h"
extern "C" {
int mlock(const void *, size_t) { return 0; }
int backtrace(void **, int) { mc::fail("an internal assertion failed"); return 0; }
}
// ---------------------------------------------------------------- locks
struct Sh { long x, y, writers, readers; };
static Sh *sh;
static void *lk;
static void wcrit() {
  if (sh->writers || sh->readers) mc::fail("a writer is inside together with %ld writers and %ld readers", sh->writers, sh->readers);
  sh->writers = 1;
  long x = sh->x, y = sh->y;
  sh->x = x + 1; sh->y = y + 1;
  sh->writers = 0;
}
static long rcrit() {
  if (sh->writers) mc::fail("a reader is inside together with a writer");
  __atomic_fetch_add(&sh->readers, 1, __ATOMIC_SEQ_CST);
  long x = sh->x, y = sh->y;
  __atomic_fetch_sub(&sh->readers, 1, __ATOMIC_SEQ_CST);
  if (x != y) mc::fail("a reader saw half of a write");
  return x;
}
static const char *LN[] = {"?", "spin", "spintry", "", "mutex", "mutextry", "", "rd", "rdtry", "rdlp", "rdnr", "", "wr", "wrtry", "wrnr", "wrhp", "wrtryhp", "wrnrhp", "", "down"};
static bool is_try(int o) { return o == SP_TRY || o == MU_TRY || o == RD_TRY || o == RD_LP || o == RD_NR || o == WR_TRY || o == WR_NR || o == WR_TRYHP || o == WR_NRHP; }
static bool is_rd(int o) { return o >= RD && o <= RD_NR; }
struct LockCfg : mc::Config {
  int kind;
  std::vector<std::vector<int>> progs;
  void setup() override { sh = new Sh(); memset(sh, 0, sizeof *sh); lk = wl_new(kind); }
  void body(int t) override {
    for (int op : progs[t - 1]) {
      int h = mc::op_begin(op, 0);
      long r = 0;
      if (op == WR_DOWN) {
        wl_do(lk, WR); wcrit(); wl_do(lk, WR_DOWN); r = rcrit() + 1; wl_do(lk, RD_UN);
      } else if (wl_do(lk, op)) {
        if (is_rd(op)) { r = rcrit() + 1; wl_do(lk, RD_UN); }
        else { wcrit(); r = 1; wl_do(lk, op <= SP_UN ? SP_UN : op <= MU_UN ? MU_UN : WR_UN); }
      }
      mc::op_end(h, r);
    }
  }
  void final_phase() override {
    mc::fin(sh->x); mc::fin(sh->y);
    int t = kind == 0 ? SP_TRY : kind == 1 ? MU_TRY : WR_TRY;
    if (!wl_do(lk, t)) mc::fail("the lock is not free at the end");
    if (wl_do(lk, t)) mc::fail("a held lock was given again");
    if (kind == 2 && (wl_do(lk, RD_TRY) || wl_do(lk, RD_LP) || wl_do(lk, RD_NR) || wl_do(lk, WR_TRYHP))) mc::fail("a write lock was shared");
    wl_do(lk, t + (kind == 2 ? WR_UN - WR_TRY : 1));
    if (kind == 2) {
      if (!wl_do(lk, RD_TRY) || !wl_do(lk, RD_LP) || !wl_do(lk, RD_NR)) mc::fail("readers do not share the lock");
      if (wl_do(lk, WR_TRY) || wl_do(lk, WR_NR)) mc::fail("a writer was admitted while readers hold the lock");
      for (int i = 0; i < 3; i++) wl_do(lk, RD_UN);
      if (!wl_do(lk, WR_TRYHP)) mc::fail("the lock is not free at the end");
      wl_do(lk, WR_DOWN);
      if (!wl_do(lk, RD_TRY) || wl_do(lk, WR_TRY)) mc::fail("downgrading does not leave one reader");
      wl_do(lk, RD_UN); wl_do(lk, RD_UN);
      if (!wl_do(lk, WR_NRHP)) mc::fail("the lock is not free at the end");
    }
  }
  std::string describe(const mc::OpRec &q) override { return "T" + std::to_string(q.tid) + " " + LN[q.op] + (q.done ? " -> " + std::to_string(q.r) : " (unfinished)"); }
  bool check(const mc::Hist &h, std::string &why) override {
    long wr = 0;
    for (auto &q : h.ops) if (!is_rd(q.op) && q.r) wr++;
    if (h.fin[0] != wr || h.fin[1] != wr) { why = "a write was lost"; return false; }
    for (auto &q : h.ops) {
      auto over = [&](const mc::OpRec &p) { return &p != &q && !(q.before >> p.id() & 1) && !(p.before >> q.id() & 1); };
      if (!q.r) {
        if (!is_try(q.op)) { why = "a waiting lock operation was refused"; return false; }
        bool o = false;
        for (auto &p : h.ops) if (over(p) && !(is_rd(q.op) && is_rd(p.op))) o = true;
        if (!o) { why = std::string(LN[q.op]) + " was refused although nobody else " + (is_rd(q.op) ? "wrote" : "used the lock"); return false; }
        continue;
      }
      if (!is_rd(q.op)) continue;
      long lo = 0, hi = 0;
      for (auto &p : h.ops) if (&p != &q && !is_rd(p.op) && p.r) { if (q.before >> p.id() & 1) lo++; if (!(p.before >> q.id() & 1)) hi++; }
      if (q.r - 1 < lo || q.r - 1 > hi) { why = "a reader saw a stale value"; return false; }
    }
    return true;
  }
};
static void locks(mc::Suite &s, bool th) {
  std::vector<int> al[3] = {{SP_LOCK, SP_TRY}, {MU_LOCK, MU_TRY}, {RD, RD_TRY, RD_LP, RD_NR, WR, WR_TRY, WR_NR, WR_HP, WR_TRYHP, WR_NRHP, WR_DOWN}};
  for (int kind = 0; kind < 3; kind++) {
    auto &A = al[kind];
    int n = A.size();
    auto add = [&](std::vector<std::vector<int>> p, int bound) {
      bool w = false; for (auto &q : p) for (int o : q) w |= !is_rd(o);
      if (!w) return;
      auto *c = new LockCfg();
      c->kind = kind; c->progs = p; c->nthreads = p.size(); c->bound = bound; c->fill = 0;
      const char *K[] = {"spinlock", "mutex", "rwlock"};
      c->name = K[kind];
      for (auto &q : p) { c->name += " |"; for (int o : q) c->name += std::string(" ") + LN[o]; }
      s.conc.push_back(c);
    };
    for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) add({{A[a], A[b]}, {A[c]}}, 255);
    for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int c = b; c < n; c++) add({{A[a]}, {A[b]}, {A[c]}}, kind == 2 && !th ? 4 : 255);
    if (kind < 2 || th) for (int a = 0; a < n * n; a++) for (int b = a; b < n * n; b++) add({{A[a / n], A[a % n]}, {A[b / n], A[b % n]}}, 4);
    if (kind < 2) for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = b; c < n; c++) for (int d = c; d < n; d++) { add({{A[a], A[b]}, {A[c]}, {A[d]}}, 4); if (th) add({{A[a]}, {A[b]}, {A[c]}, {A[d]}}, 4); }
    else for (int a : {RD, RD_TRY, WR, WR_HP, WR_DOWN}) for (int b : {RD, WR, WR_TRY, WR_HP}) for (int c : {RD, WR, WR_HP}) for (int d : {RD, RD_NR, WR, WR_TRYHP}) { add({{a, b}, {c}, {d}}, th ? 4 : 2); if (th) add({{a}, {b}, {c}, {d}}, 3); }
  }
}
// ---------------------------------------------------------------- quiescent states
enum { Q_READ = 1, Q_QREAD, Q_REG, Q_UNREG, Q_WRITE, Q_PWRITE };
static const char *QN[] = {"?", "ebr-read", "qsbr-read", "register", "unregister", "write", "parked-write"};
struct Obj { long ver, a, b; };
struct Q { void *q; Obj *cur; void *ref[mc::MAXT]; int lock; bool reg[mc::MAXT]; };
static Q *Qs;
struct QCfg : mc::Config {
  std::vector<std::vector<int>> progs;
  bool same_shard = true;
  void setup() override {
    Qs = new Q(); memset(Qs, 0, sizeof *Qs);
    Qs->q = wq_create();
    Qs->cur = new Obj{1, 11, 12};
    char *pool = (char *)malloc(400 * 64);
    int n = 0;
    for (int i = 0; i < 400 && n < mc::MAXT; i++) {
      void *p = pool + i * 64;
      if (!same_shard || wq_hash(p) % 32 == wq_hash(pool) % 32) Qs->ref[n++] = p;
    }
  }
  void reg(int t, bool on) {
    if (on) { if (!wq_register(Qs->q, Qs->ref[t])) mc::fail("registration refused"); wq_park(Qs->ref[t]); }
    else wq_unregister(Qs->q, Qs->ref[t]);
    Qs->reg[t] = on;
  }
  void thread_init(int t) override { if (progs[t - 1][0] != Q_REG) reg(t, true); }
  void thread_fini(int t) override { if (Qs->reg[t]) reg(t, false); }
  static void use(Obj *o) { long a = o->a, b = o->b; if (a != o->ver * 11 || b != o->ver * 12) mc::fail("a reader sees a wrong object"); }
  void body(int t) override {
    void *r = Qs->ref[t];
    for (int op : progs[t - 1]) {
      int h = mc::op_begin(op, 0);
      switch (op) {
        case Q_REG: reg(t, true); break;
        case Q_UNREG: reg(t, false); break;
        case Q_READ: case Q_QREAD: {
          wq_resume(r);
          for (int i = 0; i < (op == Q_QREAD ? 2 : 1); i++) {
            Obj *o;
            do { o = __atomic_load_n(&Qs->cur, __ATOMIC_SEQ_CST); wq_update(r, o->ver); } while (o != __atomic_load_n(&Qs->cur, __ATOMIC_SEQ_CST));
            use(o);
          }
          wq_park(r);
          break;
        }
        case Q_WRITE: case Q_PWRITE: {
          if (op == Q_WRITE) wq_resume(r);
          while (__atomic_exchange_n(&Qs->lock, 1, __ATOMIC_SEQ_CST)) {
            if (op == Q_WRITE) wq_park(r);
            while (__atomic_load_n(&Qs->lock, __ATOMIC_SEQ_CST)) ;
            if (op == Q_WRITE) wq_resume(r);
          }
          Obj *old = Qs->cur, *o = new Obj{old->ver + 1, (old->ver + 1) * 11, (old->ver + 1) * 12};
          if (op == Q_WRITE) wq_update(r, o->ver);
          __atomic_store_n(&Qs->cur, o, __ATOMIC_SEQ_CST);
          wq_wait(Qs->q, o->ver);
          old->a = old->b = -1;
          delete old;
          __atomic_store_n(&Qs->lock, 0, __ATOMIC_SEQ_CST);
          if (op == Q_WRITE) wq_park(r);
          break;
        }
      }
      mc::op_end(h, 1);
    }
  }
  void final_phase() override { wq_wait(Qs->q, 99); delete Qs->cur; wq_destroy(Qs->q); mc::fin(1); }
  std::string describe(const mc::OpRec &q) override { return "T" + std::to_string(q.tid) + " " + QN[q.op] + (q.done ? "" : " (unfinished)"); }
};
static void quiescence(mc::Suite &s, bool th) {
  std::set<std::string> seen;
  auto add = [&](std::vector<std::vector<int>> p, int bound, bool same = true) {
    auto *c = new QCfg(); c->progs = p; c->nthreads = p.size(); c->bound = bound; c->fill = 0; c->same_shard = same;
    c->name = same ? "qsbr" : "qsbr, own shards";
    for (auto &q : p) { c->name += " |"; for (int o : q) c->name += std::string(" ") + QN[o]; }
    if (seen.insert(c->name).second) s.conc.push_back(c);
  };
  std::vector<std::vector<int>> rd = {{Q_READ}, {Q_QREAD}, {Q_REG, Q_READ}, {Q_READ, Q_UNREG}, {Q_REG, Q_UNREG}, {Q_UNREG, Q_REG}, {Q_REG, Q_READ, Q_UNREG}, {Q_READ, Q_UNREG, Q_REG, Q_READ}, {Q_READ, Q_READ}};
  for (bool same : {true, false}) for (int w : {Q_WRITE, Q_PWRITE}) for (auto &r : rd) {
    add({r, {w}}, 255, same); add({r, {w, w}}, th ? 255 : 3, same); add({r, {Q_REG, w}}, th ? 255 : 3, same); add({r, {w, Q_UNREG}}, th ? 255 : 3, same);
    for (auto &r2 : rd) add({r, r2, {w}}, th ? 3 : 2, same);
    for (int w2 : {Q_WRITE, Q_PWRITE}) add({r, {w}, {w2}}, th ? 3 : 2, same);
  }
  add({{Q_WRITE}, {Q_WRITE}}, 255); add({{Q_WRITE, Q_WRITE}, {Q_WRITE}}, 3);
}
// the registry's capacity: registering and unregistering in one shard and in many
struct QSeq : mc::SeqConfig {
  struct St { void *q; char *pool; int n; bool on[40]; char *r[40]; };
  St *s; bool one; int nref;
  QSeq(bool o) : one(o) { name = one ? "qsbr registry, one shard" : "qsbr registry, all shards"; nletters = 8; depth = 5; fill = 0; nref = 30; }
  void setup() override {
    s = new St(); memset(s, 0, sizeof *s);
    s->q = wq_create();
    s->pool = (char *)malloc(3000 * 32);
    for (int i = 0; i < 3000 && s->n < nref; i++) { char *p = s->pool + i * 32; if (!one || wq_hash(p) % 32 == wq_hash(s->pool) % 32) s->r[s->n++] = p; }
    for (int i = 0; i < (one ? 21 : 26); i++) reg(i);
  }
  int used() { int c = 0; for (int i = 0; i < s->n; i++) c += s->on[i]; return c; }
  void reg(int i) {
    bool ok = wq_register(s->q, s->r[i]);
    if (ok) wq_park(s->r[i]);
    if (!ok && !one) mc::fail("registration refused");
    if (!ok && used() < 16) mc::fail("registration refused with %d threads registered", used());
    s->on[i] = ok;
  }
  void apply(int l) override {
    int i = l < 6 ? (l < 3 ? l * 5 : 20 + l) : -1;
    if (l == 6) { for (int j = 0; j < s->n; j++) if (s->on[j]) { wq_resume(s->r[j]); wq_update(s->r[j], 7); } wq_wait(s->q, 7); for (int j = 0; j < s->n; j++) if (s->on[j]) wq_park(s->r[j]); return; }
    if (l == 7) { for (int j = 0; j < s->n; j += 3) if (s->on[j]) { wq_unregister(s->q, s->r[j]); s->on[j] = false; memset(s->r[j], 0xee, 24); } return; }
    if (s->on[i]) { wq_unregister(s->q, s->r[i]); s->on[i] = false; memset(s->r[i], 0xee, 24); }
    else reg(i);
  }
  void audit() override { wq_wait(s->q, 1000); }       // everyone is parked: returns at once
};
// ---------------------------------------------------------------- slab
struct Slot { char *p; long stamp; };
struct SlabSt { void *s; Slot o[16]; long stamp; int extra; long n; };
static SlabSt *ss;
struct SlabSeq : mc::SeqConfig {
  unsigned long osz; bool safe;
  SlabSeq(unsigned long o, bool sf, int d) : osz(o), safe(sf) { name = "slab of " + std::to_string(o) + " bytes, " + (sf ? "safe" : "unsafe"); nletters = sf ? 6 : 7; depth = d; fill = 0; }
  static unsigned long width(unsigned long o) { return o; }
  void put(char *p, long st) { for (unsigned long i = 0; i < osz; i++) p[i] = (char)(st * 7 + i); }
  void ok(Slot &o) { for (unsigned long i = 0; i < osz; i++) if (o.p[i] != (char)(o.stamp * 7 + i)) mc::fail("an allocated object was overwritten"); }
  void setup() override { ss = new SlabSt(); memset(ss, 0, sizeof *ss); ss->s = ws_create(osz, 4096); if (!ss->s) mc::fail("slab_create refused"); }
  void alloc() {
    for (auto &o : ss->o) if (!o.p) {
      char *p = (char *)ws_alloc(ss->s, safe);
      if (!p) mc::fail("allocation refused");
      if ((unsigned long)p % 8 || (osz % 64 == 0 && (unsigned long)p % 64)) mc::fail("object is not aligned");
      for (auto &q : ss->o) if (q.p && p < q.p + osz && q.p < p + osz) mc::fail("object overlaps an allocated one");
      o.p = p; o.stamp = ++ss->stamp; put(p, o.stamp); ss->n++;
      return;
    }
  }
  void rel(int i) { auto &o = ss->o[i]; if (!o.p) return; ok(o); put(o.p, 99); ws_free(ss->s, o.p, safe); o.p = nullptr; ss->n--; }
  void apply(int l) override {
    switch (l) {
      case 0: alloc(); break;
      case 1: rel(0); break;
      case 2: { int m = -1; for (int i = 0; i < 16; i++) if (ss->o[i].p) m = i; if (m >= 0) rel(m); break; }
      case 3: for (int i = 0; i < 3; i++) alloc(); break;
      case 4: ws_free_all(ss->s); for (auto &o : ss->o) o.p = nullptr; ss->n = 0; break;
      case 5: for (int i = 0; i < 16; i += 2) rel(i); break;
      case 6: { if (!ws_reserve(ss->s, 5)) mc::fail("reserve refused"); long b = mc::live_blocks(); for (int i = 0; i < 5; i++) alloc(); if (mc::live_blocks() != b) mc::fail("memory was requested for reserved objects"); break; }
    }
  }
  void audit() override {
    for (auto &o : ss->o) if (o.p) ok(o);
    if ((long)ws_nalloc(ss->s) != ss->n) mc::fail("slab_get_nalloc gives %lu, %ld objects are allocated", ws_nalloc(ss->s), ss->n);
  }
};
struct SlabBad : mc::SeqConfig {
  SlabBad() { name = "slab sizes"; nletters = 12; depth = 1; fill = 0; }
  void setup() override {}
  void apply(int l) override {
    static const unsigned long o[] = {0, 12, 7, 4096, 4040, 64, 64, 64, 2048, 2056, 4032, 8}, b[] = {4096, 4096, 4096, 4096, 4096, 2048, 5000, 0, 4096, 4096, 4096, 8192};
    static const bool good[] = {0, 0, 0, 0, 0, 0, 0, 0, 1, 1, 1, 1};
    long b0 = mc::live_blocks();
    void *s = ws_create(o[l], b[l]);
    if ((s != nullptr) != good[l]) mc::fail("slab_create(%lu, %lu) gives %p", o[l], b[l], s);
    if (!s) return;
    char *p = (char *)ws_alloc(s, true), *q = (char *)ws_alloc(s, true);
    memset(p, 1, o[l]); memset(q, 2, o[l]);
    for (unsigned long i = 0; i < o[l]; i++) if (p[i] != 1) mc::fail("objects overlap");
    ws_free(s, p, true);
    ws_destroy(s);
    if (mc::live_blocks() != b0) mc::fail("slab_destroy leaves memory behind");
  }
};
enum { S_A = 1, S_F, S_FO };
struct SlabConc : mc::Config {
  unsigned long osz; int pre; std::vector<std::vector<int>> progs;
  struct T { char *p[8]; int n; };
  struct G { T t[mc::MAXT]; void *s; char *own[64]; };
  G *g;
  void setup() override {
    g = new G(); memset(g, 0, sizeof *g);
    g->s = ws_create(osz, 4096);
    char *x[8]; for (int i = 0; i < pre; i++) x[i] = (char *)ws_alloc(g->s, true);
    for (int i = 0; i < pre; i++) ws_free(g->s, x[i], true);
  }
  void thread_init(int t) override { for (auto o : progs[t - 1]) if (o == S_FO) { char *p = (char *)ws_alloc(g->s, true); stamp(p, t); g->t[t].p[g->t[t].n++] = p; } }
  void stamp(char *p, int t) { for (unsigned long i : {0ul, osz / 2, osz - 8}) *(long *)(p + i) = t; }
  void chk(char *p, int t) { for (unsigned long i : {0ul, osz / 2, osz - 8}) if (*(long *)(p + i) != t) mc::fail("an object is owned by two threads"); }
  void body(int t) override {
    auto &m = g->t[t];
    for (int op : progs[t - 1]) {
      int h = mc::op_begin(op, 0);
      if (op == S_A) { char *p = (char *)ws_alloc(g->s, true); if (!p) mc::fail("allocation refused"); stamp(p, t); m.p[m.n++] = p; }
      else if (m.n) { char *p = m.p[op == S_F ? --m.n : 0]; if (op == S_FO) { m.p[0] = m.p[--m.n]; } chk(p, t); ws_free(g->s, p, true); }
      mc::op_end(h, 1);
    }
  }
  void final_phase() override {
    long n = 0;
    for (int t = 1; t < mc::MAXT; t++) for (int i = 0; i < g->t[t].n; i++) {
      chk(g->t[t].p[i], t); n++;
      for (int u = 1; u < mc::MAXT; u++) for (int j = 0; j < g->t[u].n; j++) if ((u != t || i != j) && g->t[u].p[j] == g->t[t].p[i]) mc::fail("an object was given out twice");
    }
    if ((long)ws_nalloc(g->s) != n) mc::fail("slab_get_nalloc gives %lu, %ld objects are allocated", ws_nalloc(g->s), n);
    ws_destroy(g->s);
    mc::fin(n);
  }
  std::string describe(const mc::OpRec &q) override { const char *N[] = {"?", "alloc", "free", "free-oldest"}; return "T" + std::to_string(q.tid) + " " + N[q.op] + (q.done ? "" : " (unfinished)"); }
};
static void slabs(mc::Suite &s, bool th) {
  s.seq.push_back(new SlabBad());
  for (unsigned long o : {2048ul, 1360ul, 1000ul, 192ul}) for (bool sf : {true, false}) s.seq.push_back(new SlabSeq(o, sf, th ? 7 : 5));
  s.seq.push_back(new QSeq(true)); s.seq.push_back(new QSeq(false));
  const char *N[] = {"?", "alloc", "free", "free-oldest"};
  std::vector<std::vector<int>> P = {{S_A}, {S_FO}, {S_A, S_F}, {S_FO, S_A}, {S_A, S_A}, {S_A, S_F, S_A}, {S_FO, S_A, S_FO}, {S_A, S_A, S_FO}};
  auto add = [&](std::vector<std::vector<int>> p, unsigned long o, int pre, int bound) {
    auto *c = new SlabConc(); c->osz = o; c->pre = pre; c->progs = p; c->nthreads = p.size(); c->bound = bound; c->fill = 0;
    c->name = "slab of " + std::to_string(o) + ", " + std::to_string(pre) + " free";
    for (auto &q : p) { c->name += " |"; for (int x : q) c->name += std::string(" ") + N[x]; }
    s.conc.push_back(c);
  };
  for (int pre : {0, 1, 2, 3}) for (unsigned long o : {2048ul, 1360ul}) {
    for (size_t a = 0; a < P.size(); a++) for (size_t b = a; b < P.size(); b++) add({P[a], P[b]}, o, pre, th ? 255 : 4);
    for (size_t a = 0; a < (th ? P.size() : 4); a++) for (size_t b = a; b < 4; b++) for (size_t c = b; c < 4; c++) add({P[a], P[b], P[c]}, o, pre, th ? 3 : 2);
  }
}
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &, const std::string &tier) {
    mc::Suite s; bool th = tier == "thorough";
    s.rule = "every interleaving of each program of lock, registry and allocator operations; every sequence of allocator and registry operations";
    locks(s, th); quiescence(s, th); slabs(s, th);
    return s;
  });
}
