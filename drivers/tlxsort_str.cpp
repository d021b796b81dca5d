// tlx sequential string sorting (C30)
#include "tlx/sort/strings.hpp"
#include "tlxsort_str.h"
static const int NALG = 7;
static const char *algname[] = {"insertion sort", "multikey quicksort", "radix sort CE0", "radix sort CE2", "radix sort CE3", "radix sort CI2", "radix sort CI3"};
static void string_alg(int a, int kind, bool lcp, const List &L, size_t mem) {
  char what[80]; snprintf(what, sizeof what, "%s%s, memory %zu", algname[a], lcp ? " with lcp" : "", mem);
  switch (a) {
    case 0: on_set(what, kind, lcp, L, [mem](const auto &p) { D::insertion_sort(p, 0, mem); }); break;
    case 1: on_set(what, kind, lcp, L, [mem](const auto &p) { D::multikey_quicksort(p, 0, mem); }); break;
    case 2: on_set(what, kind, lcp, L, [mem](const auto &p) { D::radixsort_CE0(p, 0, mem); }); break;
    case 3: on_set(what, kind, lcp, L, [mem](const auto &p) { D::radixsort_CE2(p, 0, mem); }); break;
    case 4: on_set(what, kind, lcp, L, [mem](const auto &p) { D::radixsort_CE3(p, 0, mem); }); break;
    case 5: on_set(what, kind, lcp, L, [mem](const auto &p) { D::radixsort_CI2(p, 0, mem); }); break;
    default: on_set(what, kind, lcp, L, [mem](const auto &p) { D::radixsort_CI3(p, 0, mem); }); break;
  }
}
// the public functions
static void public_sort(const List &L) {
  const char **tmp = new const char *[L.n + 1];
  std::vector<const char *> in(L.w, L.w + L.n); std::vector<string> str(L.w, L.w + L.n);
  LcpBuf lb(L.n);
#define PS(T, cast, call) { std::vector<T> v; for (auto x : in) v.push_back((T)(x)); call; check_sorted(#call, #T, L, [&](int i) { return (const char *)v[i]; }, strstr(#call, "lcp") ? lb.p : nullptr, tmp); }
  using namespace tlx;
    PS(char *, , sort_strings(v)) PS(const char *, , sort_strings(v)) PS(unsigned char *, , sort_strings(v)) PS(const unsigned char *, , sort_strings(v))
    PS(char *, , sort_strings(v.data(), v.size())) PS(const char *, , sort_strings(v.data(), v.size()))
    PS(char *, , sort_strings_lcp(v, lb.p)) PS(const char *, , sort_strings_lcp(v, lb.p)) PS(unsigned char *, , sort_strings_lcp(v, lb.p)) PS(const unsigned char *, , sort_strings_lcp(v, lb.p))
    PS(char *, , sort_strings_lcp(v.data(), v.size(), lb.p)) PS(const char *, , sort_strings_lcp(v.data(), v.size(), lb.p))
    { auto v = str; sort_strings(v); check_sorted("sort_strings", "std::string", L, [&](int i) { return v[i].c_str(); }, nullptr, tmp); }
    { auto v = str; sort_strings_lcp(v, lb.p); check_sorted("sort_strings_lcp", "std::string", L, [&](int i) { return v[i].c_str(); }, lb.p, tmp); }
#undef PS
  delete[] tmp;
}struct Str : In {
  Words w; std::vector<int> sizes; std::vector<size_t> mems; int algs; int kinds; bool pub;
  Str(const string &nm, Words w, int d, std::vector<int> sizes, std::vector<size_t> mems, int algs, int kinds, bool pub) : w(w), sizes(sizes), mems(mems), algs(algs), kinds(kinds), pub(pub) { fix(nm, w.size(), d, d * 10); }
  void run() override {
    int n = s->n;
    std::vector<const char *> l;
    auto all = [&]() {
      List L{(int)l.size(), l.data()};
      for (int a = 0; a < NALG; a++) if (algs >> a & 1) for (int k = 0; k < 4; k++) if (kinds >> k & 1) for (int q = 0; q < 2; q++) for (size_t m : mems) string_alg(a, k, q, L, m);
      if (pub) public_sort(L);
    };
    for (int N : sizes) {
      if (N && !n) continue;
      l.clear();
      if (!N) { for (int i = 0; i < n; i++) l.push_back(w[s->v[i]]); all(); }
      else if (N > 0) {
        for (int i = 0; i < N; i++) l.push_back(w[s->v[i % n]]);
        all();
        if (n > 1) { l.clear(); for (int i = 0; i < N; i++) l.push_back(w[s->v[i * n / N]]); all(); }
      } else if (n > 1) {                           // all equal but for the last ones
        for (int i = 0; i < -N; i++) l.push_back(w[i < -N - n + 1 ? s->v[0] : s->v[i - (-N - n)]]);
        all();
      }
    }
  }
};
// suffixes of every text
struct Suff : In {
  string al;
  Suff(const string &nm, const string &al, int d) : al(al) { fix(nm, al.size(), d, d); }
  void run() override {
    if (!s->n) return;
    string base; for (int i = 0; i < s->n; i++) base += al[s->v[i]];
    for (int N : {s->n, 37, 70}) {
      string t; while ((int)t.size() < N) t += base; t.resize(N);
      for (int a = 0; a < NALG; a++) {
        if (a >= 2 && N < 32) continue;
        std::vector<size_t> sa; auto ss = D::StringSuffixSet::Initialize(t, sa); LcpBuf lb(N);
        D::StringLcpPtr<D::StringSuffixSet, uint32_t> p(ss, lb.p);
        switch (a) { case 0: D::insertion_sort(p, 0, 0); break; case 1: D::multikey_quicksort(p, 0, 0); break; case 5: D::radixsort_CI2(p, 0, 0); break; case 6: D::radixsort_CI3(p, 0, 0); break; default: continue; }
        bool seen[80] = {};
        for (int i = 0; i < N; i++) {
          if (sa[i] >= (size_t)N || seen[sa[i]]) { mc::fail("%s of the suffixes of '%s': not a permutation", algname[a], t.c_str()); break; } seen[sa[i]] = true;
          if (i) { const char *x = t.c_str() + sa[i - 1], *y = t.c_str() + sa[i]; if (ucmp(x, y) >= 0) { mc::fail("%s of the suffixes of '%s': wrong order at %d", algname[a], t.c_str(), i); break; } if ((int)lb.p[i] != lcp_of(x, y)) { mc::fail("%s of the suffixes of '%s': lcp %u at %d instead of %d", algname[a], t.c_str(), lb.p[i], i, lcp_of(x, y)); break; } }
        }
      }
    }
  }
};

void add_strings(mc::Suite &s, bool T) {
  auto add = [&](mc::SeqConfig *c) { s.seq.push_back(c); };
    // strings
    const Words W1{"", "a", "b", "\xff", "aa", "ab", "a\xff", "\xff" "a", "aab", "abab"};
    const Words W2{"", "a", "aaaaaaa", "aaaaaaab", "aaaaaaaa", "aaaaaaaaa", "aaaaaaaab", "aaaaaaaaaaaaaaaa", "aaaaaaaaaaaaaaaaa", "baaaaaaaa"};
    const Words W3{"", "a", "b", "aa", "a\xff"};
    add(new Str("strings, short lists", W1, T ? 5 : 4, {0}, {0}, 1, 15, false));
    add(new Str("strings, longer lists", W3, T ? 7 : 6, {0}, {0}, 1, 7, false));
    add(new Str("strings, short lists, public", W2, 3, {0, 33}, {0}, 0, 0, true));
    add(new Str("strings repeated", W1, T ? 4 : 3, {31, 32, 33, 47, 64, -40}, {0}, 126, 15, false));
    add(new Str("strings repeated, common prefixes", W2, T ? 4 : 3, {32, 65, -33, 100}, {0}, 126, 3, false));
    add(new Str("strings repeated, few words", W3, T ? 6 : 4, {35, 70, 130}, {0}, 126, 5, false));
    add(new Str("strings, limited memory", W2, T ? 3 : 2, {33, 70, 130}, {1, 100, 1000, 2700, 3500, 5000, 8000, 12000, 20000, 1 << 20}, 126, 15, false));
    add(new Str("many strings", {"", "a", "ab", "abc", "abcab"}, T ? 3 : 2, T ? std::vector<int>{65535, 65540} : std::vector<int>{65540}, {0}, 126, 1, false));
    add(new Str("many strings, limited memory", {"a", "ab", "abcab", "abcb"}, 2, {65600}, {700000, 1200000, 2000000, 3000000}, 0x50, 1, false));
    add(new Str("many strings, twice", {"abcd", "abce", "abcda"}, 2, {66000}, {0, 1300000}, 0x50, 1, false));
    add(new Suff("suffixes", string("ab"), T ? 12 : 9)); add(new Suff("suffixes, three letters", string("a\x7f\xff"), T ? 7 : 6));
}
