// tlx thread pool, semaphore, barriers, shared counting pointers (concurrent), delegates (sequential): C29.
#include "tlx/thread_pool.hpp"
#include "tlx/semaphore.hpp"
#include "tlx/thread_barrier_mutex.hpp"
#include "tlx/thread_barrier_spin.hpp"
#include "tlx/counting_ptr.hpp"
#include "tlx/delegate.hpp"
#include <string.h>
#include <array>
#include <functional>
#include <set>
#include <thread>
#include "mc.h"
#include "oc.h"
long oc::instances = 0;
using oc::Box;
using std::string;

// ---------------------------------------------------------------- thread pool
// Actor 0 creates the pool, starts the other actors, joins them, and destroys the pool.
struct PAct { char op; int x; };      // E: enqueue job x, L: loop_until_empty, T: loop_until_terminate, X: terminate, I: read idle/has_idle/size/done
// job kinds: 'p' plain, 'e' enqueues job x, 'x' terminates the pool, 'g' waits until job x has started
struct PJob { char kind; int x; };
struct Sh {
  tlx::ThreadPool *pool; int started[8], finished[8], live[8]; int inits[8]; int dead, workers, stop; int running;
};
static Sh *sh;
struct Tok {                            // captured by a job: how many copies are alive
  int j;
  explicit Tok(int j) : j(j) { __atomic_fetch_add(&sh->live[j], 1, __ATOMIC_RELAXED); }
  Tok(const Tok &o) : Tok(o.j) {}
  Tok(Tok &&o) : Tok(o.j) {}
  ~Tok() { __atomic_fetch_sub(&sh->live[j], 1, __ATOMIC_RELAXED); }
};
struct PoolC : mc::Config {
  int P; std::vector<PJob> jobs; std::vector<std::vector<PAct>> act; bool init = false, stops = false;
  void setup() override { sh = new Sh(); memset(sh, 0, sizeof *sh); }
  void run(int j) {
    if (__atomic_fetch_add(&sh->started[j], 1, __ATOMIC_SEQ_CST)) mc::fail("job %d runs twice, or after the pool has terminated", j);
    if (sh->dead) mc::fail("job %d runs after the pool was destroyed", j);
    if (init) { int n = 0; for (int i = 0; i < P; i++) n += sh->inits[i]; if (!n) mc::fail("job %d runs before any worker was initialised", j); }
    switch (jobs[j].kind) {
      case 'e': add(jobs[j].x); break;
      case 'x': sh->pool->terminate(); break;
      case 'g': while (!__atomic_load_n(&sh->started[jobs[j].x], __ATOMIC_SEQ_CST)) std::this_thread::yield(); break;
    }
    if (sh->dead) mc::fail("the pool is destroyed while job %d runs", j);
    __atomic_store_n(&sh->finished[j], 1, __ATOMIC_SEQ_CST);
  }
  void add(int j) { Tok t(j); sh->pool->enqueue([this, t] { run(t.j); }); }
  // jobs that job j leads to, including itself
  void closure(int j, std::set<int> &s) { s.insert(j); if (jobs[j].kind == 'e') closure(jobs[j].x, s); }
  void play(int a) {
    std::set<int> mine;
    for (PAct &p : act[a]) switch (p.op) {
      case 'E': add(p.x); closure(p.x, mine); break;
      case 'L': sh->pool->loop_until_empty(); for (int j : mine) if (!__atomic_load_n(&sh->finished[j], __ATOMIC_SEQ_CST)) mc::fail("loop_until_empty returns before job %d has finished", j);
        if (sh->pool->done() < mine.size()) mc::fail("done() is %d after %d jobs", (int)sh->pool->done(), (int)mine.size()); break;
      case 'T': sh->pool->loop_until_terminate(); for (size_t j = 0; j < jobs.size(); j++) { int st = sh->started[j] % 100, fi = sh->finished[j]; if (st && !fi) mc::fail("loop_until_terminate returns while job %d runs", (int)j); if (!st) sh->started[j] = 100; }
        break;
      case 'X': sh->pool->terminate(); break;
      case 'I': { size_t i = sh->pool->idle(); if (i > (size_t)P) mc::fail("%d of %d workers are idle", (int)i, P); if (sh->pool->size() != (size_t)P) mc::fail("size() is %d", (int)sh->pool->size()); sh->pool->has_idle(); break; }
    }
  }
  void body(int) override {
    if (init) sh->pool = new tlx::ThreadPool(P, [](size_t p) { if (__atomic_fetch_add(&sh->inits[p], 1, __ATOMIC_SEQ_CST)) mc::fail("worker %d is initialised twice", (int)p); });
    else sh->pool = new tlx::ThreadPool(P);
    std::vector<std::thread> th;
    for (size_t a = 1; a < act.size(); a++) th.emplace_back([this, a] { play(a); });
    play(0);
    for (auto &t : th) t.join();
    delete sh->pool; sh->dead = 1;
  }
  void final_phase() override {
    std::set<int> must;                  // enqueued by an actor that waits afterwards
    if (!stops) for (auto &a : act) { std::set<int> m; for (auto &x : a) { if (x.op == 'E') closure(x.x, m); if (x.op == 'L') must.insert(m.begin(), m.end()); } }
    for (size_t j = 0; j < jobs.size(); j++) {
      int st = sh->started[j] % 100;
      if (st > 1) mc::fail("job %d ran %d times", (int)j, st);
      if (st && !sh->finished[j]) mc::fail("job %d was started but never finished", (int)j);
      if (must.count(j) && !st) mc::fail("job %d was lost", (int)j);
      if (sh->live[j]) mc::fail("%d copies of job %d are never destroyed", sh->live[j], (int)j);
    }
    if (init) for (int i = 0; i < P; i++) if (sh->inits[i] != 1) mc::fail("worker %d was never initialised", i);
  }
};

// ---------------------------------------------------------------- semaphore: linearizability of the results, and no waiter that could go on stays blocked
struct SOp { char op; int d, s; };      // s: signal(), S: signal(d), w: wait(d, s), t: try_acquire(d, s)
typedef std::vector<std::vector<SOp>> SProg;
static bool sem_step(const SOp &o, int &v, long &r) {
  switch (o.op) {
    case 's': r = ++v; return true;
    case 'S': r = v += o.d; return true;
    case 'w': if (v < o.d + o.s) return false; v -= o.d; r = v; return true;
    default: if (v < o.d + o.s) r = 0; else { v -= o.d; r = 1; } return true;
  }
}
// can some order of the program leave a waiter stuck by right?
static bool sem_may_stick(const SProg &p, std::vector<size_t> &pc, int v) {
  bool any = false, left = false;
  for (size_t t = 0; t < p.size(); t++) if (pc[t] < p[t].size()) {
    left = true; int w = v; long r;
    if (!sem_step(p[t][pc[t]], w, r)) continue;
    any = true; pc[t]++; bool st = sem_may_stick(p, pc, w); pc[t]--; if (st) return true;
  }
  return left && !any;
}
static tlx::Semaphore *sem;
struct SemC : mc::Config {
  SProg p; int v0;
  void setup() override { tlx::Semaphore s(v0), t; t = std::move(s); sem = new tlx::Semaphore(std::move(t)); }
  void body(int t) override {
    for (auto &o : p[t - 1]) {
      int h = mc::op_begin(o.op, o.d, o.s); long r;
      switch (o.op) { case 's': r = sem->signal(); break; case 'S': r = sem->signal(o.d); break; case 'w': r = o.d == 1 && !o.s ? sem->wait() : sem->wait(o.d, o.s); break; default: r = sem->try_acquire(o.d, o.s); }
      mc::op_end(h, r);
    }
  }
  void final_phase() override { mc::fin(sem->value()); delete sem; }
  std::string describe(const mc::OpRec &q) override { char b[80]; snprintf(b, sizeof b, "T%d %s(%ld,%ld) -> %ld", q.tid, q.op == 's' ? "signal" : q.op == 'S' ? "signal-n" : q.op == 'w' ? "wait" : "try_acquire", q.a, q.b, q.r); return b; }
  bool lin(const mc::Hist &h, uint32_t done, int v) {
    if (done == (1u << h.ops.size()) - 1) return v == h.fin[0];
    for (size_t i = 0; i < h.ops.size(); i++) if (!(done >> i & 1)) {
      bool first = true;
      for (size_t k = 0; k < h.ops.size(); k++) if (!(done >> k & 1) && k != i && (h.ops[i].before >> h.ops[k].id() & 1)) first = false;
      if (!first) continue;
      int w = v; long r; SOp o{(char)h.ops[i].op, (int)h.ops[i].a, (int)h.ops[i].b};
      if (!sem_step(o, w, r) || r != h.ops[i].r) continue;
      if (lin(h, done | 1u << i, w)) return true;
    }
    return false;
  }
  bool check(const mc::Hist &h, std::string &why) override { if (lin(h, 0, v0)) return true; why = "no order of the operations explains the results"; return false; }
};

// ---------------------------------------------------------------- barriers
struct BState { int arrived[8]; int fired, inl; };
static BState *bs;
template <class B> struct BarC : mc::Config {
  int n, rounds, yieldmask; bool spin; static B *b;
  void setup() override { bs = new BState(); memset(bs, 0, sizeof *bs); b = new B(n); if (b->step()) mc::fail("a new barrier is not at step 0"); }
  void body(int t) override {
    for (int r = 0; r < rounds; r++) {
      __atomic_store_n(&bs->arrived[t], r + 1, __ATOMIC_RELAXED);
      auto lam = [this, r] {
        for (int i = 1; i <= n; i++) if (__atomic_load_n(&bs->arrived[i], __ATOMIC_RELAXED) != r + 1) mc::fail("round %d ends although thread %d has arrived %d times", r, i, bs->arrived[i]);
        if (bs->fired != r) mc::fail("the completion of round %d runs as number %d", r, bs->fired);
        bs->fired++;
      };
      if (yieldmask >> ((t + r) % 3) & 1) b->wait_yield(lam); else b->wait(lam);
      if (__atomic_load_n(&bs->fired, __ATOMIC_RELAXED) != r + 1 && (r + 1 == rounds || n > 1)) mc::fail("thread %d leaves round %d after %d completions", t, r, bs->fired);
      for (int i = 1; i <= n; i++) if (__atomic_load_n(&bs->arrived[i], __ATOMIC_RELAXED) < r + 1) mc::fail("thread %d leaves round %d before thread %d has arrived", t, r, i);
      if (b->step() != (spin ? size_t(r + 1) : size_t((r + 1) & 1))) mc::fail("step() is %d after round %d", (int)b->step(), r);
    }
  }
  void final_phase() override { if (bs->fired != rounds) mc::fail("%d completions after %d rounds", bs->fired, rounds); b->wait(); delete b; }
};
template <class B> B *BarC<B>::b;
// the last: n-1 further waiters would be needed, so the final wait only applies to n == 1
template <class B> struct BarN : BarC<B> { void final_phase() override { if (bs->fired != this->rounds) mc::fail("%d completions after %d rounds", bs->fired, this->rounds); delete this->b; } };

// ---------------------------------------------------------------- one counted object shared by several threads
struct RObj : tlx::ReferenceCounter { int id, magic; explicit RObj(int i) : id(i), magic(0x5afe) { made(1); } RObj(const RObj &o) : tlx::ReferenceCounter(o), id(o.id), magic(o.magic) { made(1); } ~RObj() { if (magic != 0x5afe) mc::fail("an object is destroyed twice"); magic = 0; made(-1); } static void made(int d); };
struct RShared { tlx::CountingPtr<RObj> a, b; tlx::CountingPtr<RObj> own[4][2]; int live; };
static RShared *rs;
void RObj::made(int d) { __atomic_fetch_add(&rs->live, d, __ATOMIC_RELAXED); }
// own pointers start as copies of a and b (made in set-up); a and b themselves are dropped by the last thread's 'A' / 'B' letters
struct RefC : mc::Config {
  std::vector<string> p;
  void setup() override { rs = (RShared *)malloc(sizeof(RShared)); memset((void *)rs, 0, sizeof *rs); new (rs) RShared(); rs->live = 0; rs->a = tlx::make_counting<RObj>(1); rs->b = tlx::CountingPtr<RObj>(new RObj(2)); for (size_t t = 0; t < p.size(); t++) { rs->own[t][0] = rs->a; rs->own[t][1] = rs->b; } rs->a.reset(); rs->b = nullptr; }
  void body(int t) override {
    auto &x = rs->own[t - 1][0], &y = rs->own[t - 1][1];
    for (char c : p[t - 1]) {
      if (x && x->magic != 0x5afe) mc::fail("a pointer refers to a destroyed object");
      switch (c) {
        case 'r': x.reset(); break;
        case 'R': y = nullptr; break;
        case 'c': { tlx::CountingPtr<RObj> z(x); z = y; } break;
        case 'a': x = y; break;
        case 'm': x = std::move(y); break;
        case 's': x.swap(y); break;
        case 'u': x.unify(); if (x && !x.unique()) mc::fail("unify leaves a shared object"); break;
        case 'q': if (x && x.unique() && x.use_count() != 1) mc::fail("a unique pointer is shared"); break;
      }
      if (x) { if (x->magic != 0x5afe) mc::fail("a pointer refers to a destroyed object"); if (x.use_count() < 1) mc::fail("the count of a held object is 0"); }
    }
  }
  void final_phase() override {
    std::set<RObj *> held; long cnt = 0;
    for (size_t t = 0; t < p.size(); t++) for (int i = 0; i < 2; i++) if (auto &q = rs->own[t][i]) { held.insert(q.get()); size_t n = 0; for (size_t u = 0; u < p.size(); u++) for (int k = 0; k < 2; k++) n += rs->own[u][k] == q; if (q.use_count() != n) mc::fail("count %d for %d pointers", (int)q.use_count(), (int)n); }
    cnt = held.size();
    if (rs->live != cnt) mc::fail("%d live objects instead of %ld", rs->live, cnt);
    for (size_t t = 0; t < p.size(); t++) for (int i = 0; i < 2; i++) rs->own[t][i].reset();
    if (rs->live) mc::fail("%d objects are never destroyed", rs->live);
  }
};

// ---------------------------------------------------------------- delegates
typedef tlx::Delegate<int(int, Box)> Dg;
static int calls[8];
static int fn1(int a, Box b) { return a * 10 + b.get() + 1000; }
static int fn2(int a, Box b) { return a * 10 + b.get() + 2000; }
struct Cls { int base; int m(int a, Box b) { calls[0]++; return base + a * 10 + b.get(); } int cm(int a, Box b) const { return base + 500 + a * 10 + b.get(); } };
struct Fun { Box id; int n = 0; explicit Fun(int i) : id(i) {} int operator()(int a, Box b) { n++; return id.get() * 100000 + n * 10000 + a * 10 + b.get(); } };
struct DelS : mc::SeqConfig {
  struct M { int kind; int obj; };      // model: kind of target; obj: which closure
  struct S { Dg *d[3]; int kind[3], clo[3]; int cnt[4]; bool used[4]; Cls c[2]; };
  S *s; int nslots; long base, ib;
  struct L { int op, a, b; };
  std::vector<L> let;
  DelS(int n, int dep) : nslots(n) {
    name = "delegate/slots=" + std::to_string(n); depth = dep; bfs = true;
    for (int i = 0; i < n; i++) { for (int k = 1; k <= 14; k++) let.push_back({0, i, k}); let.push_back({1, i, 0}); let.push_back({2, i, 0}); let.push_back({3, i, 0}); for (int j = 0; j < n; j++) { let.push_back({4, i, j}); let.push_back({5, i, j}); let.push_back({6, i, j}); let.push_back({7, i, j}); let.push_back({8, i, j}); } }
    nletters = let.size();
  }
  std::string letter_name(int l) override { static const char *N[] = {"bind", "call", "reset", "reset_caller", "copy-assign", "move-assign", "swap", "copy-construct", "move-construct"}; return string(N[let[l].op]) + "(" + std::to_string(let[l].a) + "," + std::to_string(let[l].b) + ")"; }
  bool use_fingerprint() override { return true; }
  uint64_t fingerprint() override { uint64_t h = 7; for (int i = 0; i < nslots; i++) { h = h * 1000003 + s->kind[i]; h = h * 1000003 + (s->clo[i] + 1); } for (int i = 0; i < 4; i++) h = h * 1000003 + (s->used[i] ? s->cnt[i] + 1 : 0); return h * 0x9E3779B97F4A7C15ull; }
  void setup() override { s = new S(); memset((void *)s, 0, sizeof *s); ib = oc::instances; s->c[0].base = 100000; s->c[1].base = 200000; for (int i = 0; i < nslots; i++) { s->d[i] = new Dg(); s->clo[i] = -1; } }
  void gc() { for (int f = 0; f < 4; f++) { bool u = false; for (int i = 0; i < nslots; i++) if (s->clo[i] == f) u = true; if (!u) s->used[f] = false; } }
  int fresh() { for (int f = 0; f < 4; f++) if (!s->used[f]) { s->used[f] = true; s->cnt[f] = 0; return f; } return -1; }
  void apply(int l) override {
    L a = let[l]; Dg *&d = s->d[a.a];
    switch (a.op) {
      case 0: {
        Cls &c0 = s->c[0], &c1 = s->c[1]; int f = -1;
        if (a.b >= 12 && (f = fresh()) < 0) return;
        delete d;
        switch (a.b) {
          case 1: d = new Dg(Dg::make<fn1>()); break;
          case 2: d = new Dg(fn2); break;
          case 3: d = new Dg(Dg::make(&fn1)); break;
          case 4: d = new Dg(Dg::make<Cls, &Cls::m>(c0)); break;
          case 5: d = new Dg(Dg::make<Cls, &Cls::m>(&c1)); break;
          case 6: d = new Dg(Dg::make<Cls, &Cls::cm>(c0)); break;
          case 7: d = new Dg(Dg::make<Cls, &Cls::cm>((const Cls *)&c1)); break;
          case 8: d = new Dg(&c0, &Cls::m); break;
          case 9: d = new Dg(c1, &Cls::m); break;
          case 10: d = new Dg(Dg::make(c0, &Cls::m)); break;
          case 11: d = new Dg(tlx::make_delegate(c1, &Cls::m)); break;
          case 12: d = new Dg(Fun(f + 1)); break;
          case 13: { Fun g(f + 1); d = new Dg(g); break; }
          case 14: d = new Dg(Dg::make(Fun(f + 1))); break;
        }
        s->kind[a.a] = a.b; s->clo[a.a] = f; gc(); return;
      }
      case 1: {
        if (!s->kind[a.a] || s->kind[a.a] < 0) return;
        if (s->clo[a.a] >= 0 && s->cnt[s->clo[a.a]] >= 3) return;
        Box b(7); int r = (*d)(4, b), want = 0;
        switch (s->kind[a.a]) { case 1: case 3: want = 1047; break; case 2: want = 2047; break; case 4: case 8: case 10: want = 100047; break; case 5: case 9: case 11: want = 200047; break; case 6: want = 100547; break; case 7: want = 200547; break; default: want = (s->clo[a.a] + 1) * 100000 + ++s->cnt[s->clo[a.a]] * 10000 + 47; }
        if (r != want) mc::fail("the call gives %d instead of %d", r, want);
        return;
      }
      case 2: d->reset(); s->kind[a.a] = 0; s->clo[a.a] = -1; gc(); return;
      case 3: if (s->kind[a.a] > 0) s->kind[a.a] = -s->kind[a.a]; d->reset_caller(); return;   // keeps what it stores
      case 4: *d = *s->d[a.b]; s->kind[a.a] = s->kind[a.b]; s->clo[a.a] = s->clo[a.b]; gc(); return;
      case 7: { Dg *n = new Dg(*s->d[a.b]); delete d; d = n; s->kind[a.a] = s->kind[a.b]; s->clo[a.a] = s->clo[a.b]; gc(); return; }
      case 5: case 8: {
        if (a.a == a.b) return;
        if (a.op == 5) *d = std::move(*s->d[a.b]); else { Dg *n = new Dg(std::move(*s->d[a.b])); delete d; d = n; }
        s->kind[a.a] = s->kind[a.b]; s->clo[a.a] = s->clo[a.b];
        delete s->d[a.b]; s->d[a.b] = new Dg(); s->kind[a.b] = 0; s->clo[a.b] = -1; gc(); return;     // what the source holds now is unspecified
      }
      case 6: d->swap(*s->d[a.b]); std::swap(s->kind[a.a], s->kind[a.b]); std::swap(s->clo[a.a], s->clo[a.b]); return;
    }
  }
  void audit() override {
    int live = 0; for (int f = 0; f < 4; f++) live += s->used[f];
    if (oc::instances - ib != live) mc::fail("%ld stored closures instead of %d", oc::instances - ib, live);
    for (int i = 0; i < nslots; i++) {
      bool has = s->kind[i] > 0;
      if (bool(*s->d[i]) != has || (*s->d[i] == nullptr) == has || (*s->d[i] != nullptr) != has) mc::fail("slot %d %s a target", i, has ? "lost" : "has");
      for (int j = 0; j < nslots; j++) {
        bool eq = *s->d[i] == *s->d[j], ne = *s->d[i] != *s->d[j];
        if (eq == ne || (i == j && !eq)) mc::fail("comparison of slots %d and %d is inconsistent", i, j);
        if (s->kind[i] > 0 && s->kind[j] > 0) {
          // same target and no closure, or a shared closure: equal.  different closures or different targets: not
          bool same = s->kind[i] == s->kind[j] && (s->kind[i] < 8 || (s->kind[i] >= 12 && s->clo[i] == s->clo[j]));
          bool diff = (s->clo[i] != s->clo[j]) || ((s->kind[i] <= 3) != (s->kind[j] <= 3));
          if (same && !eq) mc::fail("slots %d and %d are equal but compare different", i, j);
          if (diff && eq) mc::fail("slots %d and %d differ but compare equal", i, j);
        }
        if ((*s->d[i] < *s->d[j]) && (*s->d[j] < *s->d[i])) mc::fail("order of slots %d and %d is inconsistent", i, j);
      }
    }
  }
};

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &, const std::string &tier) {
    mc::Suite s; bool th = tier == "thorough";
    s.rule = "every interleaving (up to the stated preemption bound) of each program";
    // pools
    auto pool = [&](const string &nm, int P, std::vector<PJob> jobs, std::vector<std::vector<PAct>> act, int bound, bool init = false, int spur = 0) {
      auto *c = new PoolC(); c->spurious = spur; c->name = string(spur ? "spurious " : "") + "pool/" + std::to_string(P) + "/" + nm; c->P = P; c->jobs = jobs; c->act = act; c->bound = bound; c->init = init; c->nthreads = 1; c->fill = 0; c->weight = 1000 * P + 100 * act.size() + 50 * jobs.size();
      for (auto &a : act) for (auto &x : a) if (x.op == 'X' || x.op == 'T') c->stops = true;
      for (auto &j : jobs) if (j.kind == 'x') c->stops = true;
      s.conc.push_back(c);
    };
    const PJob p{'p', 0}; const PAct L{'L', 0}, X{'X', 0}, T{'T', 0}, I{'I', 0};
    auto E = [](int j) { return PAct{'E', j}; };
    int B = th ? 5 : 3;
    for (int P = 1; P <= (th ? 3 : 2); P++) {
      int b = P == 1 ? B + 2 : P == 2 ? B : 3, m = P == 1 ? b - 2 : b - 1;   // m: several waiting threads
      pool("destroy", P, {}, {{}}, b, true);
      pool("job;wait", P, {p}, {{E(0), L}}, b, true);
      pool("job;destroy", P, {p}, {{E(0)}}, b);
      pool("job;wait", P, {p}, {{E(0), L}}, b - 1, false, 2);
      pool("terminate;until-terminate", P, {p}, {{E(0), X, T}}, b - 1, false, 1);
      pool("2jobs;wait", P, {p, p}, {{E(0), E(1), L}}, b - 2, false, 1);
      pool("wait", P, {}, {{I, L}}, b);
      pool("2jobs;wait", P, {p, p}, {{E(0), E(1), I, L}}, b);
      pool("2jobs;destroy", P, {p, p}, {{E(0), E(1)}}, b);
      pool("3jobs;wait", P, {p, p, p}, {{E(0), E(1), E(2), L}}, P == 1 ? b : b - 1);
      pool("job;wait;job;wait", P, {p, p}, {{E(0), L, E(1), L}}, b);
      pool("job-enqueues;wait", P, {{'e', 1}, p}, {{E(0), L}}, b);
      pool("job-enqueues-twice;wait", P, {{'e', 1}, {'e', 2}, p}, {{E(0), L}}, b - 1);
      pool("job-enqueues;destroy", P, {{'e', 1}, p}, {{E(0)}}, b);
      pool("job-terminates;until-terminate", P, {{'x', 0}}, {{E(0), T}}, b);
      pool("job-terminates,job;until-terminate", P, {{'x', 0}, p}, {{E(0), E(1), T}}, b);
      pool("terminate;until-terminate", P, {p}, {{E(0), X, T}}, b);
      pool("terminate;job;destroy", P, {p}, {{X, E(0)}}, b);
      pool("two-wait", P, {p}, {{E(0), L}, {L}}, m);
      pool("two-wait-own", P, {p, p}, {{E(0), L}, {E(1), L}}, P == 1 || th ? m : m - 1);
      pool("two-until-terminate", P, {p}, {{E(0), X, T}, {T}}, m);
      pool("other-terminates", P, {p}, {{E(0), T}, {X}}, m);
      pool("other-enqueues", P, {p, p}, {{E(0), L}, {E(1)}}, m);
      pool("job-terminates,two-until-terminate", P, {{'x', 0}}, {{E(0), T}, {T}}, m);
      pool("wait-and-until-terminate", P, {p}, {{E(0), L, X}, {T}}, m);
      if (P >= 2) { pool("jobs-need-each-other;wait", P, {{'g', 1}, {'g', 0}}, {{E(0), E(1), L}}, b - 1); pool("job-needs-enqueued", P, {{'g', 1}, p}, {{E(0), E(1), L}}, b - 1); pool("job-enqueues-and-waits-for-it", P, {{'e', 1}, p, {'g', 1}}, {{E(2), E(0), L}}, b - 1); }
    }
    // semaphores
    std::vector<SOp> al{{'s', 1, 0}, {'S', 2, 0}, {'w', 1, 0}, {'w', 2, 0}, {'w', 1, 1}, {'t', 1, 0}, {'t', 2, 0}, {'t', 1, 1}};
    if (th) { al.push_back({'S', 3, 0}); al.push_back({'w', 0, 2}); al.push_back({'t', 0, 1}); }
    auto semp = [&](const SProg &p, int v0, int bound, int spur = 0) {
      std::vector<size_t> pc(p.size(), 0); if (sem_may_stick(p, pc, v0)) return;
      bool sig = false, take = false; for (auto &q : p) for (auto &o : q) { if (o.op == 's' || o.op == 'S') sig = true; else take = true; }
      if (!take || (!sig && !v0)) return;
      auto *c = new SemC(); c->p = p; c->v0 = v0; c->nthreads = p.size(); c->bound = bound; c->fill = 0;
      c->spurious = spur; c->name = string(spur ? "spurious " : "") + "sem/" + std::to_string(v0);
      for (auto &q : p) { c->name += " |"; for (auto &o : q) { char b[40]; if (o.op == 's') snprintf(b, sizeof b, " signal"); else if (o.op == 'S') snprintf(b, sizeof b, " signal(%d)", o.d); else snprintf(b, sizeof b, " %s(%d,%d)", o.op == 'w' ? "wait" : "try", o.d, o.s); c->name += b; } }
      s.conc.push_back(c);
    };
    int n = al.size();
    for (int v0 = 0; v0 <= 1; v0++) {
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) { semp({{al[a], al[b]}, {al[c]}}, v0, 255); if (al[a].op == 'w' || al[b].op == 'w' || al[c].op == 'w') semp({{al[a], al[b]}, {al[c]}}, v0, 255, 1); }
      for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int c = b; c < n; c++) semp({{al[a]}, {al[b]}, {al[c]}}, v0, 255);
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) for (int d = c; d < n; d++) semp({{al[a], al[b]}, {al[c]}, {al[d]}}, v0, th ? 255 : 3);
      if (th) for (int a = 0; a < n * n; a++) for (int b = a; b < n * n; b++) semp({{al[a / n], al[a % n]}, {al[b / n], al[b % n]}}, v0, 255);
    }
    semp({{al[0], al[0], al[0]}, {al[2]}, {al[3]}}, 0, 4);
    semp({{al[0], al[0], al[0], al[0]}, {al[3]}, {al[2], al[2]}}, 0, 4);
    semp({{al[0], al[0]}, {al[0]}, {al[2]}, {al[3]}}, 0, th ? 4 : 2);
    // barriers
    for (int nn = 1; nn <= (th ? 4 : 3); nn++) for (int r = 1; r <= (nn == 2 ? 4 : 3); r++) for (int y : {0, 3, 7, -1, -3}) {
      if (nn == 3 && r == 3 && !th && y) continue;
      if (nn == 4 && (r == 3 || y == 3)) continue;
      auto add = [&](auto *c, bool spin) {
        if (y < 0 && (spin || nn == 1 || (nn == 3 && r > 2) || (!th && y < -1 && r + nn > 4))) return;
        c->spurious = y < 0 ? -y : 0; c->n = nn; c->nthreads = nn; c->rounds = r; c->yieldmask = y < 0 ? 0 : y; c->spin = spin; c->fill = 0; c->bound = nn <= 2 ? (r < 4 && !(spin && r == 3 && !th) ? 255 : th ? 7 : 5) : nn == 3 ? (th ? 3 : 2) : 2; c->name = string(spin ? "barrier-spin/" : "barrier-mutex/") + std::to_string(nn) + "x" + std::to_string(r) + (y < 0 ? "/spurious" + std::to_string(-y) : "/yield" + std::to_string(y)); s.conc.push_back(c); };
      if (nn == 1) { add(new BarC<tlx::ThreadBarrierMutex>(), false); add(new BarC<tlx::ThreadBarrierSpin>(), true); }
      else { add(new BarN<tlx::ThreadBarrierMutex>(), false); add(new BarN<tlx::ThreadBarrierSpin>(), true); }
    }
    // counting pointers
    const char *ls = "rRcamsuq";
    std::vector<string> w; for (const char *a = ls; *a; a++) for (const char *b = ls; *b; b++) w.push_back(string() + *a + *b);
    for (size_t i = 0; i < w.size(); i++) for (size_t k = i; k < w.size(); k++) {
      if (!th && w[i].find('u') == string::npos && w[k].find('u') == string::npos && (i + k) % 2) continue;
      auto *c = new RefC(); c->p = {w[i], w[k]}; c->nthreads = 2; c->fill = 0; c->bound = 255; c->name = "counting-ptr/" + w[i] + "|" + w[k]; s.conc.push_back(c);
    }
    for (const char *a = ls; *a; a++) for (const char *b = a; *b; b++) for (const char *d = b; *d; d++) { auto *c = new RefC(); c->p = {string(1, *a) , string(1, *b), string(1, *d)}; c->nthreads = 3; c->fill = 0; c->bound = 255; if (c->p[0] + c->p[1] + c->p[2] == "ccc") c->bound = 6; c->name = "counting-ptr/" + c->p[0] + "|" + c->p[1] + "|" + c->p[2]; s.conc.push_back(c); }
    s.seq.push_back(new DelS(2, th ? 40 : 40));
    if (th) s.seq.push_back(new DelS(3, 6)); else s.seq.push_back(new DelS(3, 4));
    return s;
  });
}
