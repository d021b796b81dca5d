// tlx parallel merging and merge sort (C30)
#include <atomic>
#include "tlx/algorithm.hpp"
#include "tlx/sort/parallel_mergesort.hpp"
#include "tlxsort_merge.h"
// ---------------------------------------------------------------- parallel algorithms
template <class E> struct ParMerge : mc::Config {
  Lists L; int k, p; bool stable, samp; int pick_lo, pick_n; bool partial, front;
  void body(int) override {
    int v[8]; if (!partial && k == 0) return; for (int i = 0; i < k; i++) v[i] = mc::env_choice(L.size());
    Inp<E> in(L, v, k, false); int size = partial ? mc::env_choice(in.total + 1) : in.total;
    Out<E> o(in.total); E *t = o.o.data(), *r; MLess<E> cmp; auto ms = samp ? tlx::MWMSA_SAMPLING : tlx::MWMSA_EXACT;
    size_t old = tlx::parallel_multiway_merge_oversampling; tlx::parallel_multiway_merge_oversampling = 2; tlx::parallel_multiway_merge_force_parallel = true;
    if (!front) { if (stable) r = tlx::parallel_multiway_merge_base<true>(in.seq.begin(), in.seq.end(), t, size, cmp, tlx::MWMA_ALGORITHM_DEFAULT, ms, p); else r = tlx::parallel_multiway_merge_base<false>(in.seq.begin(), in.seq.end(), t, size, cmp, tlx::MWMA_ALGORITHM_DEFAULT, ms, p); }
    else { if (stable) r = tlx::stable_parallel_multiway_merge(in.seq.begin(), in.seq.end(), t, size, cmp, tlx::MWMA_ALGORITHM_DEFAULT, ms, p); else r = tlx::parallel_multiway_merge_sentinels(in.seq.begin(), in.seq.end(), t, size, cmp, tlx::MWMA_ALGORITHM_DEFAULT, ms, p); }
    tlx::parallel_multiway_merge_oversampling = old; tlx::parallel_multiway_merge_force_parallel = false;
    check_merge(samp ? "parallel merge, sampling" : "parallel merge, exact", in, t, r - t, size, stable, true);
  }
};
// owns memory and counts its copies; the counter is changed by several threads
struct PSE {
  static std::atomic<long> alive;
  int *k; int id = -1;
  PSE() : k(new int(0)) { alive++; }
  PSE(const PSE &o) : k(new int(*o.k)), id(o.id) { alive++; }
  PSE(PSE &&o) : k(o.k), id(o.id) { o.k = nullptr; alive++; }
  PSE &operator=(const PSE &o) { if (this != &o) { delete k; k = new int(*o.k); id = o.id; } return *this; }
  PSE &operator=(PSE &&o) { if (this != &o) { delete k; k = o.k; o.k = nullptr; id = o.id; } return *this; }
  ~PSE() { delete k; k = nullptr; alive--; }
};
std::atomic<long> PSE::alive;
template <class E> static int psk(const E &e) { return e.k; }
static int psk(const PSE &e) { return *e.k; }
template <class E> struct PSLess { bool operator()(const E &a, const E &b) const { return psk(a) < psk(b); } };
template <class E> static void pset(E &e, int k, int i) { e.k = k; e.idx = i; }
static void pset(PSE &e, int k, int i) { *e.k = k; e.id = i; }
template <class E> static int pid(const E &e) { return e.idx; }
static int pid(const PSE &e) { return e.id; }
template <class E> struct ParSort : mc::Config {
  int n, U, p; bool stable, samp;
  void body(int) override {
    long ib = PSE::alive, lb = mc::live_blocks();
    {
      std::vector<int> v(n); int len = mc::env_choice(2) ? n : n - 1; for (int i = 0; i < len; i++) v[i] = mc::env_choice(U);
      std::vector<E> a(len + 1); for (int i = 0; i < len; i++) pset(a[i], v[i], i); pset(a[len], 1000, 1000);
      size_t old = tlx::parallel_multiway_merge_oversampling; tlx::parallel_multiway_merge_oversampling = 2;
      auto ms = samp ? tlx::MWMSA_SAMPLING : tlx::MWMSA_EXACT;
      if (stable) tlx::stable_parallel_mergesort(a.begin(), a.begin() + len, PSLess<E>(), p, ms); else tlx::parallel_mergesort(a.begin(), a.begin() + len, PSLess<E>(), p, ms);
      tlx::parallel_multiway_merge_oversampling = old;
      std::vector<bool> seen(len); bool bad = false; string got;
      for (int i = 0; i < len; i++) { int id = pid(a[i]); if (id < 0 || id >= len || seen[id] || v[id] != psk(a[i])) { bad = true; continue; } seen[id] = true; if (i && (psk(a[i - 1]) > psk(a[i]) || (stable && psk(a[i - 1]) == psk(a[i]) && pid(a[i - 1]) > id))) bad = true; }
      if (bad) { string in; for (int i = 0; i < len; i++) { in += char('0' + v[i]); got += " " + std::to_string(psk(a[i])) + "." + std::to_string(pid(a[i])); } mc::fail("parallel mergesort of %s with %d threads gives%s", in.c_str(), p, got.c_str()); }
      if (psk(a[len]) != 1000) mc::fail("parallel mergesort writes behind its range");
    }
    if (PSE::alive != ib) mc::fail("parallel mergesort leaves %ld copies of elements undestroyed", PSE::alive - ib);
    if (mc::live_blocks() != lb) mc::fail("parallel mergesort leaves %ld blocks", mc::live_blocks() - lb);
  }
};
void add_parallel(mc::Suite &s, bool T) {
    // parallel
    auto pm = [&](const string &nm, int U, int len, int minlen, int k, int p, int bound, bool partial, bool front = false) {
      for (int st = 0; st < 2; st++) for (int sa = 0; sa < 2; sa++) { auto *c = new ParMerge<ME>(); c->L = sorted_lists(U, len, minlen); c->k = k; c->p = p; c->stable = st; c->samp = sa; c->partial = partial; c->front = front; c->nthreads = 1; c->fill = 0; c->bound = bound; c->weight = 100; c->name = "parallel merge, " + nm + (st ? ", stable" : "") + (sa ? ", sampling" : ", exact"); s.conc.push_back(c); }
    };
    pm("1 thread", 2, 2, 0, 2, 1, 0, true); pm("2 threads", 2, 2, 0, 3, 2, 0, true); pm("2 threads, interleaved", 2, 2, 1, 2, 2, T ? 3 : 2, false); pm("3 threads", 2, 2, 1, 3, 3, 0, true); pm("3 threads, interleaved", 2, 2, 1, 2, 3, T ? 2 : 1, false); pm("4 threads", 2, 3, 1, 2, 4, 0, true); pm("public", 2, 2, 1, 3, 2, 0, true, true); pm("5 sequences", 2, 1, 1, 5, 2, 0, false);
    auto ps = [&](auto *tag, const string &nm, int n, int U, int p, int bound) {
      for (int st = 0; st < 2; st++) for (int sa = 0; sa < 2; sa++) { auto *c = new ParSort<std::decay_t<decltype(*tag)>>(); c->n = n; c->U = U; c->p = p; c->stable = st; c->samp = sa; c->nthreads = 1; c->fill = 0; c->bound = bound; c->weight = 100; c->name = "parallel mergesort, " + nm + (st ? ", stable" : "") + (sa ? ", sampling" : ", exact"); s.conc.push_back(c); }
    };
    ps((ME *)0, "1 thread", 4, 2, 1, 0); ps((ME *)0, "2 threads", T ? 8 : 6, 2, 2, 0); ps((ME *)0, "2 threads, 3 keys", 4, 3, 2, 0); ps((ME *)0, "2 threads, interleaved", 4, 2, 2, T ? 2 : 1); ps((ME *)0, "3 threads", 6, 2, 3, 0); ps((ME *)0, "3 threads, interleaved", T ? 4 : 3, 2, 3, T ? 2 : 1); if (T) ps((ME *)0, "4 threads", 4, 2, 4, 0); ps((PSE *)0, "objects", 4, 2, 2, 0); ps((PSE *)0, "objects, 3 threads", T ? 5 : 4, 2, 3, 0);
}
