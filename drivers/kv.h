// Generic harnesses for ordered maps: exhaustive operation sequences against a reference (KVSeq) and
// exhaustive interleavings checked for linearizability against the same reference (KVConc).
// An adaptor A provides:
//   A(const P &)                          create the structure (target mode)
//   void tinit(int t), tfini(int t)       per-thread registration (t = 0 is the set-up thread)
//   long run(int t, const Op &, Out &)    perform one operation; the result and optional data
//   static bool spec(const Op &, long r, const long *d, int n, long *st, int U)
//        is (r, data) a correct answer in state st (st[k] = value or 0)?  advances st.
//   static std::string opname(const Op &)
#pragma once
#include <stdio.h>
#include <string.h>
#include <algorithm>
#include <set>
#include <string>
#include <vector>
#include "mc.h"

namespace kv {
enum { INS = 1, UPS, UPD, DEL, GET, SCAN, RSCAN, HAS, MRG, DELR, ITER, LB, UB, FIND, UPDI, X1, X2, X3, X4 };
enum { MAXU = 300 };

struct Op {
  int op, k;
  long v;
};
typedef std::vector<Op> Prog;

struct Out {
  long d[mc::MAXDATA];
  int n = 0;
  void add(long x) { if (n < mc::MAXDATA) d[n++] = x; }
  void kv(long k, long v) { add(k); add(v); }
};

inline const char *opstr(int op) {
  static const char *N[] = {"?", "ins", "ups", "upd", "del", "get", "scan", "rscan", "has", "mrg", "delr", "iter", "lb", "ub", "find", "updi", "x1", "x2", "x3", "x4", "fill", "drain", "putf", "mrgf"};
  return op < 24 ? N[op] : "?";
}
inline std::string opname(const Op &o) {
  char b[64];
  if (o.op == GET || o.op == HAS || o.op == DEL) snprintf(b, sizeof b, "%s%d", opstr(o.op), o.k);
  else snprintf(b, sizeof b, "%s%d=%ld", opstr(o.op), o.k, o.v);
  return b;
}
inline std::string progname(const Prog &p) {
  std::string s;
  for (auto &o : p) { if (!s.empty()) s += ","; s += opname(o); }
  return s;
}

// standard map semantics; adaptors call this for the operations they share
inline bool std_spec(const Op &o, long r, const long *d, int n, long *st, int U) {
  long old = o.k >= 0 && o.k < U ? st[o.k] : 0;
  switch (o.op) {
    case INS: if (r != (old == 0)) return false; if (!old) st[o.k] = o.v; return true;      // refuses duplicates
    case UPS: if (r != old && r != -1) return false; st[o.k] = o.v; return true;            // reports the old value, or -1 = not reported
    case UPD: if (r != (old != 0)) return false; if (old) st[o.k] = o.v; return true;
    case UPDI: if (r != old && r != -1) return false; if (old) st[o.k] = o.v; return true;
    case DEL: if (r != (old != 0)) return false; st[o.k] = 0; return true;
    case GET: return r == old;
    case HAS: return r == (old != 0);
    case SCAN: case RSCAN: {   // exact: the first v entries from k on
      std::vector<long> e;
      if (o.op == SCAN) { for (int k = std::max(0, o.k); k < U && (long)e.size() < 2 * o.v; k++) if (st[k]) { e.push_back(k); e.push_back(st[k]); } }
      else for (int k = std::min(U - 1, o.k); k >= 0 && (long)e.size() < 2 * o.v; k--) if (st[k]) { e.push_back(k); e.push_back(st[k]); }
      return (int)e.size() == n && std::equal(e.begin(), e.end(), d);
    }
  }
  return false;
}

template <class A, class P> struct KVConc : mc::Config {
  P par;
  int U;
  std::vector<long> init;               // initial value of each key (0 = absent)
  std::vector<int> order;               // insertion order of the prefill (default ascending)
  std::vector<Op> pre;                  // further set-up operations
  std::vector<int> gone;                // keys of init that those remove again
  std::vector<Prog> progs;
  std::vector<int> interval;            // op kinds checked against the interval rule instead of an instant
  bool final_scan = true;
  A *a = nullptr;

  void build_name(const std::string &prefix) {
    name = prefix;
    for (size_t t = 0; t < progs.size(); t++) name += " | " + progname(progs[t]);
    nthreads = progs.size();
  }
  static bool is_in(const std::vector<int> &v, int x) { for (int y : v) if (x == y) return true; return false; }
  void setup() override {
    a = new A(par);
    a->tinit(0);
    Out out;
    auto put = [&](int k) { if (init[k]) { out.n = 0; a->run(0, Op{UPS, k, init[k]}, out); } };
    if (order.empty()) for (int k = 0; k < U; k++) put(k);
    else for (int k : order) put(k);
    for (auto &o : pre) { out.n = 0; a->run(0, o, out); }
  }
  void thread_init(int t) override { a->tinit(t); }
  void thread_fini(int t) override { a->tfini(t); }
  void body(int t) override {
    for (auto &o : progs[t - 1]) {
      Out out;
      int h = mc::op_begin(o.op, o.k, o.v);
      long r = a->run(t, o, out);
      mc::op_data(h, out.d, out.n);
      mc::op_end(h, r);
    }
  }
  void final_phase() override {
    Out out;
    for (int k = 0; k < U; k++) { out.n = 0; mc::fin(a->run(0, Op{GET, k, 0}, out)); }
    if (final_scan) { out.n = 0; a->full(0, out); mc::fin(out.n); for (int i = 0; i < out.n; i++) mc::fin(out.d[i]); }
    a->finish();
  }
  // the map before the threads start
  long start(int k) { return is_in(gone, k) ? 0 : init[k]; }
  std::string describe(const mc::OpRec &o) override {
    std::string s = "T" + std::to_string(o.tid) + " " + opname(Op{o.op, (int)o.a, o.b}) + (o.done ? " -> " + std::to_string(o.r) : " (unfinished)");
    if (!o.data.empty()) { s += " ["; for (size_t i = 0; i < o.data.size(); i++) { if (i) s += ","; s += std::to_string(o.data[i]); } s += "]"; }
    return s;
  }
  bool lin(const std::vector<const mc::OpRec *> &ops, uint64_t done, unsigned mask, long *st, const std::vector<long> &want) {
    if (mask == (1u << ops.size()) - 1) { for (int k = 0; k < U; k++) if (st[k] != want[k]) return false; return true; }
    long save[MAXU];
    for (size_t i = 0; i < ops.size(); i++) {
      if (mask >> i & 1) continue;
      const mc::OpRec &o = *ops[i];
      bool ok = true;
      for (size_t j = 0; j < ops.size() && ok; j++) if (!(mask >> j & 1) && j != i && (o.before >> ops[j]->id() & 1)) ok = false;
      if (!ok) continue;
      memcpy(save, st, sizeof(long) * U);
      if (A::spec(Op{o.op, (int)o.a, o.b}, o.r, o.data.data(), o.data.size(), st, U) && lin(ops, done, mask | 1u << i, st, want)) return true;
      memcpy(st, save, sizeof(long) * U);
    }
    return false;
  }
  virtual long scan_lim(const mc::OpRec &s) { return s.b; }
  virtual long scan_hi(const mc::OpRec &) { return U; }      // keys from here on are outside an ascending scan
  // drivers with operations of their own override these
  virtual bool dels(int op) { return op == DEL || op == DELR; }
  virtual bool creates(int op) { return op == INS || op == UPS || op == MRG; }
  virtual bool writes(int op) { return creates(op) || op == UPD || op == UPDI || dels(op); }
  // a scan over an interval of time: keys present throughout must appear, keys absent throughout must not
  bool interval_ok(const mc::OpRec &s, const mc::Hist &h, std::string &why) {
    bool rev = s.op == RSCAN;
    long lim = scan_lim(s), hi = scan_hi(s);
    int n = s.data.size() / 2;
    long prev = rev ? 1 << 30 : -1;
    if (n > lim) { why = "scan returned more entries than asked for"; return false; }
    std::set<long> seen;
    for (int i = 0; i < n; i++) {
      long k = s.data[2 * i], v = s.data[2 * i + 1];
      if (k < 0 || k >= U) { why = "scan returned a key that never existed"; return false; }
      if (rev ? k >= prev : k <= prev) { why = "scan not strictly ordered or duplicate key"; return false; }
      if (rev ? k > s.a : k < s.a || k >= hi) { why = "scan returned a key outside the range"; return false; }
      prev = k; seen.insert(k);
      // value must have been stored before the scan ended and not definitely replaced before it began
      bool may = false;
      auto replaced = [&](int after, bool initial) {  // some write to k completed before s began, and began after the producer completed
        for (auto &q : h.ops) {
          if (!writes(q.op) || !touches(q, k) || !effective(q)) continue;
          if (!(s.before >> q.id() & 1)) continue;
          if (initial || (q.before >> after & 1)) return true;
        }
        return false;
      };
      if (start(k) == v && !replaced(0, true)) may = true;
      for (auto &p : h.ops) {
        if (dels(p.op) || !writes(p.op) || p.a != k || p.b != v) continue;
        if (p.before >> s.id() & 1) continue;
        if (!replaced(p.id(), false)) may = true;
      }
      if (!may) { why = "scan returned key " + std::to_string(k) + " with value " + std::to_string(v) + " that it did not have during the scan"; return false; }
    }
    for (int k = 0; k < U; k++) {
      if (rev ? k > s.a : k < s.a || k >= hi) continue;
      if (n >= lim && (lim == 0 || (rev ? k < prev : k > prev))) continue;
      if (seen.count(k)) continue;
      bool must = start(k) != 0, removed = false;
      for (auto &p : h.ops) {
        if (creates(p.op) && p.a == k && (s.before >> p.id() & 1)) must = true;
        if (dels(p.op) && touches(p, k) && !(p.before >> s.id() & 1)) removed = true;
      }
      if (must && !removed) { why = "scan missed key " + std::to_string(k) + " that was present throughout"; return false; }
    }
    return true;
  }
  virtual bool touches(const mc::OpRec &o, long k) { return o.op == DELR ? k >= o.a && k < o.b : o.a == k; }
  virtual bool effective(const mc::OpRec &o) { return o.op == UPS || o.op == MRG || o.op == UPDI || o.r != 0; }
  bool check(const mc::Hist &h, std::string &why) override {
    std::vector<long> want(h.fin.begin(), h.fin.begin() + U);
    for (auto &o : h.ops) if (is_in(interval, o.op) && !interval_ok(o, h, why)) return false;
    if (final_scan) {
      std::vector<long> e, g(h.fin.begin() + U + 1, h.fin.end());
      for (int k = 0; k < U; k++) if (want[k]) { e.push_back(k); e.push_back(want[k]); }
      if (e != g) { why = "final full scan disagrees with final lookups"; return false; }
    }
    std::vector<const mc::OpRec *> ops;
    for (auto &o : h.ops) if (!is_in(interval, o.op)) ops.push_back(&o);
    long st[MAXU];
    for (int k = 0; k < U; k++) st[k] = start(k);
    if (!lin(ops, 0, 0, st, want)) { why = "history is not linearizable (results and final contents fit no order)"; return false; }
    return true;
  }
};

template <class A, class P> struct KVSeq : mc::SeqConfig {
  P par;
  int U;
  std::vector<long> init;
  std::vector<int> order;
  std::vector<Op> pre;                  // further set-up operations
  std::vector<Op> letters;
  std::vector<Op> probes;               // read-only operations checked after every step (besides GET of every key and the full scan)
  bool use_full = true, get_all = true;
  struct Ref { long st[MAXU]; long ver; };
  A *a = nullptr;
  Ref *ref = nullptr;
  void finish_setup(const std::string &nm) { name = nm; nletters = letters.size(); }
  std::string letter_name(int l) override { return opname(letters[l]); }
  void step(Op o) {
    Out out;
    long r = a->run(0, o, out);
    long before = o.k >= 0 && o.k < U ? ref->st[o.k] : 0;
    if (!A::spec(o, r, out.d, out.n, ref->st, U)) {
      std::string s; for (int i = 0; i < out.n && i < 40; i++) s += std::to_string(out.d[i]) + ",";
      mc::fail("%s returned %ld [%s] (value of the key before: %ld)", opname(o).c_str(), r, s.c_str(), before);
    }
  }
  void setup() override {
    a = new A(par);
    ref = new Ref();
    memset(ref, 0, sizeof *ref);
    a->tinit(0);
    if (order.empty()) { for (int k = 0; k < U; k++) if (init[k]) step(Op{UPS, k, init[k]}); }
    else for (int k : order) step(Op{UPS, k, init[k]});
    for (auto &o : pre) step(o);
  }
  void apply(int l) override { step(letters[l]); }
  void audit() override {
    if (get_all) for (int k = 0; k < U; k++) step(Op{GET, k, 0});
    for (auto &o : probes) step(o);
    if (use_full) {
      Out out; a->full(0, out);
      std::vector<long> e;
      for (int k = 0; k < U; k++) if (ref->st[k]) { e.push_back(k); e.push_back(ref->st[k]); }
      if ((int)e.size() != out.n || !std::equal(e.begin(), e.end(), out.d)) {
        std::string s; for (int i = 0; i < out.n && i < 60; i++) s += std::to_string(out.d[i]) + ",";
        mc::fail("full traversal gives [%s], %zu entries expected", s.c_str(), e.size() / 2);
      }
    }
    a->audit();
  }
};

// ---- program enumeration
// all programs of exactly n operations over alphabet al; values are made unique per thread and position
inline std::vector<Prog> programs(const std::vector<Op> &al0, int n) {
  std::vector<Op> al;
  for (auto &o : al0) { bool dup = false; for (auto &p : al) if (p.op == o.op && p.k == o.k && p.v == o.v) dup = true; if (!dup) al.push_back(o); }
  std::vector<Prog> r{{}};
  for (int i = 0; i < n; i++) {
    std::vector<Prog> q;
    for (auto &p : r) for (auto &o : al) { Prog x = p; x.push_back(o); q.push_back(x); }
    r = q;
  }
  return r;
}
inline bool is_scan(int op) { return op == SCAN || op == RSCAN || op == ITER; }
inline bool reads_only(int op) { return op == GET || op == HAS || is_scan(op) || op == LB || op == UB || op == FIND; }
inline void unique_values(std::vector<Prog> &ps) {
  for (size_t t = 0; t < ps.size(); t++)
    for (size_t i = 0; i < ps[t].size(); i++) {
      int op = ps[t][i].op;
      if (op == INS || op == UPS || op == UPD || op == UPDI || op == MRG) ps[t][i].v = 1000 * (t + 1) + 100 * i + ps[t][i].k + 1;
    }
}
// all unordered pairs (or triples) of thread programs in which at least one operation writes
inline std::vector<std::vector<Prog>> combos(const std::vector<std::vector<Prog>> &per_thread, bool symmetric) {
  std::vector<std::vector<Prog>> r;
  std::vector<size_t> ix(per_thread.size(), 0);
  for (;;) {
    bool ok = true;
    if (symmetric) for (size_t t = 1; t < ix.size(); t++) if (ix[t] < ix[t - 1]) ok = false;
    if (ok) {
      std::vector<Prog> c; bool w = false;
      for (size_t t = 0; t < ix.size(); t++) { c.push_back(per_thread[t][ix[t]]); for (auto &o : c.back()) if (!reads_only(o.op)) w = true; }
      if (w) { unique_values(c); r.push_back(c); }
    }
    size_t t = 0;
    while (t < ix.size() && ++ix[t] == per_thread[t].size()) ix[t++] = 0;
    if (t == ix.size()) break;
  }
  return r;
}
inline std::vector<std::vector<Prog>> pairs(const std::vector<Op> &al, int n1, int n2) {
  return combos({programs(al, n1), programs(al, n2)}, n1 == n2);
}
}  // namespace kv
