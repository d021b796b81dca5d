#pragma once
#include "tlx/algorithm.hpp"
#include "tlxsort.h"
// ---------------------------------------------------------------- merging
struct ME { int k, seq, idx; };
struct MB { int k, seq, idx; long pad[6]; };
template <class E> struct MLess { bool operator()(const E &a, const E &b) const { return a.k < b.k; } };
template <class E> struct MGreater { bool operator()(const E &a, const E &b) const { return a.k > b.k; } };
typedef std::vector<std::vector<int>> Lists;
static Lists sorted_lists(int U, int L, int minlen = 0) {
  Lists r; if (!minlen) r.push_back({});
  for (size_t from = 0, len = 1; (int)len <= L; len++) { std::vector<int> c(len, 0); for (;;) { if ((int)len >= minlen) r.push_back(c); int i = len - 1; while (i >= 0 && c[i] == U - 1) i--; if (i < 0) break; int x = c[i] + 1; for (; i < (int)len; i++) c[i] = x; } (void)from; }
  return r;
}
template <class E> struct Inp {         // sequences as arrays with room for a sentinel behind each
  typedef std::pair<E *, E *> P;
  std::vector<std::vector<E>> q; std::vector<P> seq; std::vector<E> want; int total = 0;
  Inp(const Lists &all, const int *v, int n, bool desc, bool skip_empty = false) {
    for (int i = 0; i < n; i++) { auto &l = all[v[i]]; if (skip_empty && l.empty()) continue; std::vector<E> e(l.size() + 1); for (size_t j = 0; j < l.size(); j++) { e[j].k = desc ? 9 - l[j] : l[j]; e[j].seq = q.size(); e[j].idx = j; } e[l.size()].k = desc ? -100 : 100; e[l.size()].seq = -1; q.push_back(std::move(e)); total += l.size(); }
    for (auto &e : q) { for (size_t j = 0; j + 1 < e.size(); j++) want.push_back(e[j]); }
    if (desc) std::stable_sort(want.begin(), want.end(), MGreater<E>()); else std::stable_sort(want.begin(), want.end(), MLess<E>());
    reset();
  }
  void reset() { seq.clear(); for (auto &e : q) seq.push_back(P(e.data(), e.data() + e.size() - 1)); }
};
template <class E> struct Out {
  std::vector<E> o; Out(int n) : o(n + 1) { for (auto &x : o) x.k = -77; }
};
template <class E> static bool check_merge(const char *what, Inp<E> &in, const E *o, long ret, int size, bool stable, bool advance) {
  if (ret != size) { mc::fail("%s: returned the position %ld instead of %d", what, ret, size); return false; }
  std::vector<std::vector<char>> used; for (auto &e : in.q) used.push_back(std::vector<char>(e.size(), 0));
  for (int i = 0; i < size; i++) {
    if (o[i].k != in.want[i].k) { mc::fail("%s, size %d of %d in %zu sequences: key %d at %d instead of %d", what, size, in.total, in.q.size(), o[i].k, i, in.want[i].k); return false; }
    int q = o[i].seq, x = o[i].idx;
    if (q < 0 || q >= (int)in.q.size() || x < 0 || x + 1 >= (int)in.q[q].size() || used[q][x] || in.q[q][x].k != o[i].k) { mc::fail("%s, size %d of %d in %zu sequences: the element at %d is not one of the input, or taken twice", what, size, in.total, in.q.size(), i); return false; }
    used[q][x] = 1;
    if (stable && (q != in.want[i].seq || x != in.want[i].idx)) { mc::fail("%s, size %d of %d in %zu sequences: element %d.%d at %d instead of %d.%d: not stable", what, size, in.total, in.q.size(), q, x, i, in.want[i].seq, in.want[i].idx); return false; }
  }
  if (o[size].k != -77) { mc::fail("%s: written behind the output", what); return false; }
  if (advance) for (size_t q = 0; q < in.q.size(); q++) {
    long adv = in.seq[q].first - in.q[q].data(); long u = 0; while (u + 1 < (long)in.q[q].size() && used[q][u]) u++;
    for (size_t x = u; x < used[q].size(); x++) if (used[q][x]) { mc::fail("%s: sequence %zu is not consumed from its front", what, q); return false; }
    if (adv != u) { mc::fail("%s, size %d of %d in %zu sequences: sequence %zu was advanced by %ld, but %ld elements were taken", what, size, in.total, in.q.size(), q, adv, u); return false; }
    if (in.seq[q].second != in.q[q].data() + in.q[q].size() - 1) { mc::fail("%s: the end of a sequence moved", what); return false; }
  }
  return true;
}
static const tlx::MultiwayMergeAlgorithm MWA[] = {tlx::MWMA_LOSER_TREE, tlx::MWMA_LOSER_TREE_COMBINED, tlx::MWMA_LOSER_TREE_SENTINEL, tlx::MWMA_BUBBLE};
static const char *MWN[] = {"loser tree", "combined loser tree", "sentinel loser tree", "bubble"};