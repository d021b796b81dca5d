// OptiQL latches.  C11: exclusion, stale optimistic reads rejected, upgrades, progress - for every lock variant.
#include <string.h>
#include <atomic>
#include "mc.h"
#include "optiql_lock.h"
extern const LockOps ops_omcs_queue, ops_omcs_plain, ops_omcs_nofaa, ops_omcs_offset, ops_omcs_opread, ops_mcsrw_queue, ops_mcsrw_writer, ops_mcsrw_reader, ops_mcs, ops_std;
static const LockOps *ALL[] = {&ops_omcs_queue, &ops_omcs_plain, &ops_omcs_nofaa, &ops_omcs_offset, &ops_omcs_opread, &ops_mcsrw_queue, &ops_mcsrw_writer, &ops_mcsrw_reader, &ops_mcs, &ops_std};

enum { W = 1, R, TR, UP, TW };        // write, read (shared or optimistic), optimistic read without waiting, read then upgrade, try to write
static const char *NM[] = {"?", "write", "read", "tryread", "upgrade", "trywrite"};

struct Shared { long x, y, writers, readers; };
static Shared *sh;
struct Acc { long x, y; };
static void wcrit(void *p) {
  if (sh->writers) mc::fail("two writers inside the critical section");
  if (sh->readers) mc::fail("writer inside together with a shared reader");
  sh->writers = 1;
  Acc *a = (Acc *)p;
  a->x = sh->x; a->y = sh->y;
  sh->x = a->x + 1;
  sh->y = a->y + 1;
  sh->writers = 0;
}
static void rcrit(void *p) {
  Acc *a = (Acc *)p;
  if (sh->writers) mc::fail("shared reader inside together with a writer");
  __atomic_fetch_add(&sh->readers, 1, __ATOMIC_SEQ_CST);
  a->x = sh->x; a->y = sh->y;
  __atomic_fetch_sub(&sh->readers, 1, __ATOMIC_SEQ_CST);
}
struct C : mc::Config {
  const LockOps *o;
  std::vector<std::vector<int>> progs;
  void setup() override { sh = new Shared(); memset(sh, 0, sizeof *sh); o->make(); o->tinit(); }
  void thread_init(int) override { o->tinit(); }
  void body(int t) override {
    for (int op : progs[t - 1]) {
      Acc a{-1, -1};
      int h = mc::op_begin(op, 0);
      long r = -1;                     // the value seen, or -1: not admitted / not valid
      if (op == W) { o->write(wcrit, &a); r = a.x; }
      else if (op == TW) { if (o->try_write(wcrit, &a)) r = a.x; }
      else if (op == R && o->shared) { o->read(rcrit, &a); r = a.x; }
      else {
        uint64_t v; bool ok = true;
        if (op == TR) ok = o->begin(v); else v = o->begin_wait();
        if (ok) {
          long x = sh->x, y = sh->y;
          if (op == UP) {
            if (o->upgrade(v, wcrit, &a)) { r = a.x; if (a.x != x || a.y != y) mc::fail("upgrade succeeded although the data changed since the read"); }
          } else if (o->validate(v)) { r = x; if (x != y) mc::fail("validated read saw x=%ld y=%ld", x, y); }
        }
      }
      mc::op_end(h, r);
    }
  }
  void final_phase() override {
    mc::fin(sh->x); mc::fin(sh->y);
    Acc a{-1, -1};
    o->write(wcrit, &a);               // the lock is free again
    if (o->optimistic) { uint64_t v; mc::fin(o->begin(v) && o->validate(v)); }
  }
  std::string describe(const mc::OpRec &q) override { return "T" + std::to_string(q.tid) + " " + NM[q.op] + (q.done ? " -> " + std::to_string(q.r) : " (unfinished)"); }
  bool check(const mc::Hist &h, std::string &why) override {
    long wr = 0;
    for (auto &q : h.ops) if ((q.op == W || q.op == UP || q.op == TW) && q.r >= 0) wr++;
    if (h.fin[0] != wr || h.fin[1] != wr) { why = "a write was lost"; return false; }
    if (o->optimistic && h.fin[2] != 1) { why = "the free lock rejects an optimistic read"; return false; }
    for (auto &q : h.ops) {
      if (q.r < 0) {
        if (q.op == W || (q.op == R && o->shared)) { why = "an operation was not admitted"; return false; }
        // a refusal needs a writer that overlaps
        bool other = false;
        for (auto &p : h.ops) if (&p != &q && p.op != R && p.op != TR && !(q.before >> p.id() & 1) && !(p.before >> q.id() & 1)) other = true;
        if (!other) { why = "refused although no writer was active"; return false; }
        continue;
      }
      long lo = 0, hi = 0;             // writes surely before / possibly before
      for (auto &p : h.ops) if (&p != &q && (p.op == W || p.op == UP || p.op == TW) && p.r >= 0) { if (q.before >> p.id() & 1) lo++; if (!(p.before >> q.id() & 1)) hi++; }
      if (q.r < lo || q.r > hi) { why = "a stale value was accepted"; return false; }
    }
    return true;
  }
};
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &, const std::string &tier) {
    mc::Suite s; bool th = tier == "thorough";
    s.rule = "every interleaving of each program of lock operations";
    for (auto *o : ALL) {
      std::vector<int> al{W};
      if (o->shared || o->optimistic) al.push_back(R);
      if (o->optimistic) { al.push_back(TR); al.push_back(UP); }
      if (o->try_write) al.push_back(TW);
      auto add = [&](std::vector<std::vector<int>> p, int bound) {
        bool w = false; for (auto &q : p) for (int x : q) if (x != R && x != TR) w = true;
        if (!w) return;
        auto *c = new C(); c->o = o; c->progs = p; c->nthreads = p.size(); c->bound = bound; c->fill = 0;
        c->name = o->name;
        for (auto &q : p) { c->name += " |"; for (int x : q) c->name += std::string(" ") + NM[x]; }
        s.conc.push_back(c);
      };
      int n = al.size();
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = 0; c < n; c++) add({{al[a], al[b]}, {al[c]}}, 255);
      for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int c = b; c < n; c++) add({{al[a]}, {al[b]}, {al[c]}}, 255);
      for (int a = 0; a < n * n; a++) for (int b = a; b < n * n; b++) add({{al[a / n], al[a % n]}, {al[b / n], al[b % n]}}, th ? 255 : 4);
      for (int a = 0; a < n; a++) for (int b = 0; b < n; b++) for (int c = b; c < n; c++) add({{W, al[a]}, {al[b]}, {al[c]}}, th ? 255 : 2);
      if (th) for (int a = 0; a < n; a++) for (int b = a; b < n; b++) for (int c = b; c < n; c++) { add({{al[a], W}, {al[b], W}, {al[c]}}, 5); add({{W}, {al[a]}, {al[b]}, {al[c]}}, 4); }
    }
    return s;
  });
}
