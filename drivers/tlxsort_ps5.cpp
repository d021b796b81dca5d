// tlx parallel super scalar string sample sort (C30)
#include "tlx/sort/strings_parallel.hpp"
#include "tlxsort_str.h"
template <unsigned TB, size_t SMALL, size_t INS, class Cls, bool SEQ = true, bool MKQS = true, bool REST = false, class Key = size_t> struct P5 : D::PS5ParametersDefault {
  typedef Key key_type;
  static const unsigned TreeBits = TB; using Classify = Cls; static const size_t smallsort_threshold = SMALL; static const size_t inssort_threshold = INS;
  static const bool enable_sequential_sample_sort = SEQ, enable_sequential_mkqs = MKQS, enable_rest_size = REST;
};
template <class Par> struct PS5C : PSBase {
  void alg(const List &L) override { on_set<0x9>("parallel sample sort", kind, lcp, L, [](const auto &p) { D::parallel_sample_sort_params<Par>(p, 0, 0); }); }
};

void add_sample_sort(mc::Suite &s, bool T) {
    auto p5 = [&](auto *c, const string &nm, const Words &w, int len, std::vector<int> Ns, int workers, int bound) {
      for (int lcp = 0; lcp < 2; lcp++) { auto *d = new std::decay_t<decltype(*c)>(); d->w = w; d->len = len; d->Ns = Ns; d->workers = workers; d->kind = lcp ? CUCHAR : UCHAR; d->lcp = lcp; d->nthreads = 1; d->fill = 0; d->bound = bound; d->weight = 200; d->name = "sample sort, " + nm + (lcp ? ", lcp" : ""); s.conc.push_back(d); }
    };
    using C2 = D::SSClassifyTreeCalcUnrollInterleave<size_t, 2>; using U2 = D::SSClassifyTreeUnrollInterleave<size_t, 2>; using E2 = D::SSClassifyEqualUnroll<size_t, 2>; using C3 = D::SSClassifyTreeCalcUnrollInterleave<size_t, 3>; using C232 = D::SSClassifyTreeCalcUnrollInterleave<uint32_t, 2>;
    const Words X{"", "a", "aaaaaaaa", "aaaaaaaaaaaaaaaab", "aaaaaaaab", "b", "\xff"};
    for (int wk = 1; wk <= 2; wk++) {
      string n = std::to_string(wk) + " workers"; int b = 0, l3 = wk == 1 || T ? 3 : 2, l2 = wk == 1 || T ? 2 : 1;
      p5((PS5C<P5<2, 8, 4, C2>> *)0, n, X, l3, T || wk == 1 ? std::vector<int>{5, 8, 9, 20, 33} : std::vector<int>{5, 9, 20}, wk, b);
      p5((PS5C<P5<2, 8, 4, U2>> *)0, n + ", unrolled tree", X, l3, {9, 20}, wk, b);
      p5((PS5C<P5<2, 8, 4, E2>> *)0, n + ", equal buckets", X, l3, {9, 20}, wk, b);
      p5((PS5C<P5<3, 16, 4, C3>> *)0, n + ", 7 splitters", X, l3, {17, 40}, wk, b);
      p5((PS5C<P5<2, 8, 4, C2, false>> *)0, n + ", no sequential sample sort", X, l2, {9, 20}, wk, b);
      p5((PS5C<P5<2, 8, 4, C2, true, false>> *)0, n + ", no quicksort", X, l2, {7, 20}, wk, b);
      p5((PS5C<P5<2, 8, 4, C2, true, true, true>> *)0, n + ", rest size", X, l2, {9, 20}, wk, b);
      p5((PS5C<P5<2, 8, 4, C232, true, true, false, uint32_t>> *)0, n + ", 32-bit keys", X, l3, {9, 20}, wk, b);
      p5((PS5C<P5<2, 1000, 4, C2>> *)0, n + ", quicksort only", X, l3, {5, 12, 30}, wk, b);
    }
    const Words Y{"", "aaaaaaaa", "aaaaaaaaaaaaaaaab"};
    p5((PS5C<P5<2, 4, 2, C2>> *)0, "1 worker, interleaved", Y, 2, {9}, 1, T ? 2 : 1);
    if (T) p5((PS5C<P5<2, 4, 2, C2>> *)0, "2 workers, interleaved", {"", "aaaaaaaab"}, 1, {9}, 2, 1);
}
