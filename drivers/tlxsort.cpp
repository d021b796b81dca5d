// tlx sorting, merging, selection (C30). The state of a sequential exploration is the input; every input up to the
// stated length is enumerated and all algorithms are run on it.
#include "tlx/sort/networks/best.hpp"
#include "tlx/sort/networks/bose_nelson.hpp"
#include "tlx/sort/networks/bose_nelson_parameter.hpp"
#include "tlxsort_merge.h"
#include <thread>
namespace MD = tlx::multiway_merge_detail;
long oc::instances = 0;
int the_workers = 1;
unsigned int std::thread::hardware_concurrency() noexcept { return the_workers; }

// ---------------------------------------------------------------- sorting networks
struct NE { int k, id; };
struct NLess { bool operator()(const NE &a, const NE &b) const { return a.k < b.k; } };
struct NGreater { bool operator()(const NE &a, const NE &b) const { return a.k > b.k; } };
struct Net : In {
  int U;
  Net(const string &nm, int U, int d) : U(U) { fix(nm, U, d, d); }
  template <class F> void one(const char *w, bool gt, F f) {
    NE a[18]; bool seen[18] = {}; int n = s->n;
    a[0].k = a[n + 1].k = -7;
    for (int i = 0; i < n; i++) { a[i + 1].k = s->v[i]; a[i + 1].id = i; }
    f(a + 1, a + 1 + n);
    if (a[0].k != -7 || a[n + 1].k != -7) mc::fail("%s of %d elements writes outside its range", w, n);
    for (int i = 0; i < n; i++) {
      NE &e = a[i + 1];
      if (e.id < 0 || e.id >= n || seen[e.id] || e.k != s->v[e.id]) { mc::fail("%s of %d elements does not give a permutation", w, n); return; }
      seen[e.id] = true;
      if (i && (gt ? a[i].k < e.k : a[i].k > e.k)) { mc::fail("%s of %d elements: not sorted at %d", w, n, i); return; }
    }
  }
  void run() override {
    if (s->n > 16) return;
    using namespace tlx::sort_networks;
    one("best network", false, [](NE *b, NE *e) { best::sort(b, e, NLess()); });
    one("Bose-Nelson network", false, [](NE *b, NE *e) { bose_nelson::sort(b, e, NLess()); });
    one("parameter network", false, [](NE *b, NE *e) { bose_nelson_parameter::sort(b, e, NLess()); });
    if (U == 2 && s->n > 12) return;
    one("best network, greater", true, [](NE *b, NE *e) { best::sort(b, e, NGreater()); });
    one("Bose-Nelson network, greater", true, [](NE *b, NE *e) { bose_nelson::sort(b, e, NGreater()); });
    one("parameter network, greater", true, [](NE *b, NE *e) { bose_nelson_parameter::sort(b, e, NGreater()); });
  }
};

template <class E> struct Merge : In {
  Lists L; bool desc; int mink;
  Merge(const string &nm, int U, int len, int minlen, int k, bool desc, int mink = 0) : L(sorted_lists(U, len, minlen)), desc(desc), mink(mink) { fix(nm, L.size(), k, 20); }
  template <class Cmp> void go(Cmp cmp) {
    Inp<E> in(L, s->v, s->n, desc);
    for (int size = 0; size <= in.total; size++) for (int a = 0; a < 4; a++) for (int st = 0; st < 2; st++) for (int se = 0; se < 2; se++) {
      Out<E> o(size); in.reset(); char w[80]; snprintf(w, sizeof w, "%smultiway_merge%s, %s", st ? "stable_" : "", se ? "_sentinels" : "", MWN[a]);
      E *r; E *t = o.o.data();
      if (!st && !se) r = tlx::multiway_merge(in.seq.begin(), in.seq.end(), t, size, cmp, MWA[a]);
      else if (!se) r = tlx::stable_multiway_merge(in.seq.begin(), in.seq.end(), t, size, cmp, MWA[a]);
      else if (!st) r = tlx::multiway_merge_sentinels(in.seq.begin(), in.seq.end(), t, size, cmp, MWA[a]);
      else r = tlx::stable_multiway_merge_sentinels(in.seq.begin(), in.seq.end(), t, size, cmp, MWA[a]);
      if (!check_merge(w, in, t, r - t, in.q.empty() ? 0 : size, st, true)) return;
    }
  }
  void run() override { if (s->n < mink) return; if (desc) go(MGreater<E>()); else go(MLess<E>()); }
};
// partition and selection at every rank; also the splittings and two-sequence merges
template <class E> struct Select : In {
  Lists L; bool desc;
  Select(const string &nm, int U, int len, int k, bool desc) : L(sorted_lists(U, len, 1)), desc(desc) { fix(nm, L.size(), k, 15); }
  template <class Cmp> void go(Cmp cmp) {
    Inp<E> in(L, s->v, s->n, desc); if (in.q.empty()) return;
    typedef typename Inp<E>::P P; int m = in.q.size();
    auto lens = [&](int rank, std::vector<int> &c) { c.assign(m, 0); for (int i = 0; i < rank; i++) c[in.want[i].seq]++; };
    std::vector<int> c;
    for (int rank = 0; rank <= in.total; rank++) {
      std::vector<E *> off(m, nullptr);
      tlx::multisequence_partition(in.seq.begin(), in.seq.end(), (ptrdiff_t)rank, off.begin(), cmp);
      lens(rank, c);
      for (int q = 0; q < m; q++) if (off[q] - in.seq[q].first != c[q]) { mc::fail("multisequence_partition of %d elements in %d sequences at rank %d: %ld elements of sequence %d left instead of %d", in.total, m, rank, off[q] - in.seq[q].first, q, c[q]); return; }
    }
    for (int rank = -1; rank <= in.total; rank++) {
      ptrdiff_t off = -5; bool thrown = false; E e;
      try { e = tlx::multisequence_selection<E>(in.seq.begin(), in.seq.end(), (ptrdiff_t)rank, off, cmp); } catch (std::exception &) { thrown = true; }
      if (thrown != (rank < 0 || rank >= in.total)) { mc::fail("multisequence_selection of %d elements at rank %d %s", in.total, rank, thrown ? "throws" : "does not throw"); return; }
      if (thrown) continue;
      int first = rank; while (first && in.want[first - 1].k == in.want[rank].k) first--;
      if (e.k != in.want[rank].k || off != rank - first) { mc::fail("multisequence_selection of %d elements in %d sequences at rank %d: key %d offset %ld instead of key %d offset %d", in.total, m, rank, e.k, (long)off, in.want[rank].k, rank - first); return; }
    }
    // splitting for parallel merging
    for (int p = 1; p <= 4 && p <= in.total; p++) for (int samp = 0; samp < 2; samp++) for (int size = p; size <= in.total; size++) {
      std::vector<std::vector<P>> ch(p, std::vector<P>(m));
      if (samp) tlx::multiway_merge_sampling_splitting<true>(in.seq.begin(), in.seq.end(), (ptrdiff_t)size, (ptrdiff_t)in.total, cmp, ch.data(), p, 2);
      else tlx::multiway_merge_exact_splitting<true>(in.seq.begin(), in.seq.end(), (ptrdiff_t)size, (ptrdiff_t)in.total, cmp, ch.data(), p);
      int at = 0;
      for (int t = 0; t < p; t++) {
        int n = 0; for (int q = 0; q < m; q++) { E *b = ch[t][q].first, *e = ch[t][q].second; if (b > e || b != (t ? ch[t - 1][q].second : in.seq[q].first)) { mc::fail("%s splitting of %d elements in %d sequences for %d threads: part %d of sequence %d does not follow the one before", samp ? "sampling" : "exact", in.total, m, p, t, q); return; } n += e - b; }
        lens(at + n, c); for (int q = 0; q < m; q++) if (ch[t][q].second - in.seq[q].first != c[q]) { mc::fail("%s splitting of %d elements in %d sequences for %d threads: part %d is no stable prefix", samp ? "sampling" : "exact", in.total, m, p, t); return; }
        at += n;
      }
      if (at != size) mc::fail("%s splitting of %d of %d elements in %d sequences for %d threads covers %d", samp ? "sampling" : "exact", size, in.total, m, p, at);
    }
  }
  void run() override { if (desc) go(MGreater<E>()); else go(MLess<E>()); }
};
template <class E> struct Two : In {   // two sequences: merge_advance, merge_combine
  Lists L; Two(const string &nm, int U, int len) : L(sorted_lists(U, len)) { fix(nm, L.size(), 2, 5); }
  void run() override {
    if (s->n < 2) return;
    for (int desc = 0; desc < 2; desc++) {
      Inp<E> in(L, s->v, 2, desc);
      for (int size = 0; size <= in.total; size++) for (int w = 0; w < 3; w++) {
        in.reset(); Out<E> o(size); E *t = o.o.data(), *r; auto &a = in.seq[0], &b = in.seq[1]; const char *nm[] = {"merge_advance_usual", "merge_advance_movc", "merge_advance"};
        auto f = [&](auto cmp) { r = w == 0 ? tlx::merge_advance_usual(a.first, a.second, b.first, b.second, t, size, cmp) : w == 1 ? tlx::merge_advance_movc(a.first, a.second, b.first, b.second, t, size, cmp) : tlx::merge_advance(a.first, a.second, b.first, b.second, t, size, cmp); };
        if (desc) f(MGreater<E>()); else f(MLess<E>());
        if (!check_merge(nm[w], in, t, r - t, size, true, true)) return;
      }
    }
    // merge_combine: keys equal in both are combined; strictly ascending inputs as well as any sorted ones (pairwise)
    auto &x = L[s->v[0]], &y = L[s->v[1]]; std::vector<std::pair<int, int>> a, b, o(x.size() + y.size() + 1, {-77, 0});
    for (size_t i = 0; i < x.size(); i++) a.push_back({x[i], 1 + (int)i}); for (size_t i = 0; i < y.size(); i++) b.push_back({y[i], 100 * (1 + (int)i)});
    typedef std::pair<int, int> PI;
    auto r = tlx::merge_combine(a.begin(), a.end(), b.begin(), b.end(), o.begin(), [](const PI &p, const PI &q) { return p.first - q.first; }, [](const PI &p, const PI &q) { return PI(p.first, p.second + q.second); });
    std::vector<PI> want; size_t i = 0, j = 0; while (i < a.size() || j < b.size()) { if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) want.push_back(a[i++]); else if (i == a.size() || b[j].first < a[i].first) want.push_back(b[j++]); else { want.push_back(PI(a[i].first, a[i].second + b[j].second)); i++; j++; } }
    if ((size_t)(r - o.begin()) != want.size() || !std::equal(want.begin(), want.end(), o.begin())) mc::fail("merge_combine of %zu and %zu elements is wrong", a.size(), b.size());
    if (o[want.size()].first != -77) mc::fail("merge_combine writes behind its result");
  }
};
// scans, sortedness, splitting of ranges
struct Scan : In {
  Scan(const string &nm, int U, int d) { fix(nm, U, d, 3); }
  void run() override {
    int n = s->n; std::vector<int> a(s->v, s->v + n), o(n + 2, -77);
    auto r = tlx::exclusive_scan(a.begin(), a.end(), o.begin(), 5); int acc = 5; bool bad = false;
    for (int i = 0; i <= n; i++) { if (o[i] != acc) bad = true; if (i < n) acc += a[i]; }
    if (bad || o[n + 1] != -77) mc::fail("exclusive_scan of %d elements is wrong", n);
    if (n && r - o.begin() != n + 1) mc::fail("exclusive_scan of %d elements returns position %ld", n, (long)(r - o.begin()));
    std::vector<string> as, os(n + 2, "?"); for (int x : a) as.push_back(string(1, 'a' + x)); string acs = ">";
    tlx::exclusive_scan(as.begin(), as.end(), os.begin(), string(">"));
    for (int i = 0; i <= n; i++) { if (os[i] != acs) { mc::fail("exclusive_scan of %d strings: '%s' at %d instead of '%s'", n, os[i].c_str(), i, acs.c_str()); break; } if (i < n) acs += as[i]; }
    int u = n ? 1 : 0; while (u < n && a[u - 1] <= a[u]) u++;
    auto c = [](int x, int y) { return x < y ? -1 : x > y ? 1 : 0; };
    if (tlx::is_sorted_until_cmp(a.begin(), a.end(), c) - a.begin() != u) mc::fail("is_sorted_until_cmp is wrong");
    if (tlx::is_sorted_cmp(a.begin(), a.end(), c) != (u == n)) mc::fail("is_sorted_cmp is wrong");
  }
};
struct Split : In {
  Split(const string &nm) { fix(nm, 40, 1, 1); }
  void run() override {
    if (!s->n) return; int n = s->v[0];
    for (int p = 1; p <= n || p == 1; p++) { std::vector<int> o(p + 2, -77); auto r = MD::equally_split(n, p, o.begin()); if (r - o.begin() != p + 1 || o[p + 1] != -77 || o[0] != (n ? 0 : o[0]) || o[p] != n) mc::fail("equally_split(%d,%d): bad ends", n, p); if (n) for (int i = 0; i < p; i++) { int d = o[i + 1] - o[i]; if (d < n / p || d > n / p + 1) mc::fail("equally_split(%d,%d): part %d has %d elements", n, p, i, d); } }
  }
};
// every value a random source of 60 values can take: each choice of elements is equally likely
struct Bipart : In {
  Bipart(const string &nm) { fix(nm, 28, 1, 1); }
  struct Over {};
  struct Rng { typedef uint32_t result_type; const std::vector<int> &a; size_t i = 0; static constexpr uint32_t min() { return 0; } static constexpr uint32_t max() { return 59; } uint32_t operator()() { if (i == a.size()) throw Over(); return a[i++]; } };
  void run() override {
    if (!s->n) return; int N = 0, left = s->v[0]; while (left > N) left -= ++N; if (N > 6) return;
    int k = std::min(left, N - left), d = k / 2 + k % 2; std::vector<int> a(d, 0); std::vector<long> cnt(1 << N, 0);
    for (;;) {
      Rng g{a}; std::vector<int> p(N); for (int i = 0; i < N; i++) p[i] = i;
      try {
        tlx::random_bipartition_shuffle(p.begin(), p.end(), left, g);
        int m = 0, all = 0; for (int i = 0; i < N; i++) { all |= 1 << p[i]; if (i < left) m |= 1 << p[i]; }
        if (all != (1 << N) - 1) { mc::fail("random_bipartition_shuffle of %d elements, %d left, is not a permutation", N, left); return; }
        if ((int)g.i == d) cnt[m]++;
      } catch (Over &) {}
      int i = d - 1; while (i >= 0 && a[i] == 59) a[i--] = 0; if (i < 0) break; a[i]++;
    }
    long want = -1; for (int m = 0; m < 1 << N; m++) if (__builtin_popcount(m) == left) { if (want < 0) want = cnt[m]; if (!cnt[m] || cnt[m] != want) { mc::fail("random_bipartition_shuffle of %d elements, %d left: set %x is chosen %ld times, another one %ld times", N, left, m, cnt[m], want); return; } }
  }
};

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const std::string &, const std::string &tier) {
    mc::Suite s; bool T = tier == "thorough";
    s.rule = "every input over the stated alphabet up to the stated length, through every algorithm and parameter";
    auto add = [&](mc::SeqConfig *c) { s.seq.push_back(c); };
    // networks: by the 0-1 principle two keys decide; more keys for the permutation
    add(new Net("sorting networks, 2 keys", 2, 16)); add(new Net("sorting networks, 3 keys", 3, T ? 11 : 9)); add(new Net("sorting networks, 6 keys", 6, T ? 7 : 6));
    add_strings(s, T);
    // merging
    add(new Merge<ME>("merge up to 3 sequences", 3, 3, 0, 3, false)); add(new Merge<ME>("merge up to 3 sequences, descending", 3, 2, 0, 3, true));
    add(new Merge<MB>("merge up to 3 big", 2, 3, 0, 3, false)); add(new Merge<ME>("merge up to 4 sequences", 2, 3, 0, 4, false, 4)); if (T) { add(new Merge<ME>("merge up to 4 sequences, 3 keys", 3, 2, 0, 4, false, 4)); add(new Merge<ME>("merge 4 longer", 2, 4, 1, 4, false, 4)); }
    add(new Merge<MB>("merge up to 5 big", 2, 2, 0, 5, false, 5)); add(new Merge<ME>("merge up to 5", 2, 2, 0, 5, false, 5)); add(new Merge<ME>("merge up to 5 descending", 3, 1, 0, 5, true, 5));
    add(new Merge<ME>("merge up to 6", 3, 1, 0, 6, false, 6)); add(new Merge<MB>("merge up to 7 big", 2, 1, 0, 7, false, 7)); add(new Merge<ME>("merge 9", 2, 1, T ? 0 : 1, 9, false, 9)); add(new Merge<MB>("merge 9 big", 2, 1, 1, 9, true, 9));
    if (T) { add(new Merge<MB>("merge up to 6 big", 3, 1, 0, 6, false, 6)); add(new Merge<ME>("merge 6 longer", 2, 2, 1, 6, false, 6)); }
    add(new Two<ME>("two sequences", 3, T ? 7 : 5));
    add(new Select<ME>("partition up to 4", 2, 3, 4, false)); add(new Select<ME>("partition up to 3", 3, 3, 3, false)); add(new Select<ME>("partition 2 longer", 3, T ? 8 : 6, 2, false)); add(new Select<ME>("partition descending", 3, 2, 3, true)); add(new Select<ME>("partition 1", 3, 8, 1, false)); add(new Select<ME>("partition up to 6", 2, T ? 2 : 1, 6, false));
    if (T) add(new Select<ME>("partition 3 longer", 3, 4, 3, false));
    add(new Scan("scans", 3, T ? 10 : 7)); add(new Split("equal splits")); add(new Bipart("random bipartition"));
    add_parallel(s, T); add_sample_sort(s, T); add_public(s, T);
    return s;
  });
}

