// tlx public parallel string sorting functions (C30)
#include "tlx/sort/strings_parallel.hpp"
#include "tlxsort_str.h"
// the public functions
static void public_sort(const List &L) {
  const char **tmp = new const char *[L.n + 1];
  std::vector<const char *> in(L.w, L.w + L.n); std::vector<string> str(L.w, L.w + L.n);
  LcpBuf lb(L.n);
#define PS(T, cast, call) { std::vector<T> v; for (auto x : in) v.push_back((T)(x)); call; check_sorted(#call, #T, L, [&](int i) { return (const char *)v[i]; }, strstr(#call, "lcp") ? lb.p : nullptr, tmp); }
  using namespace tlx;
    PS(char *, , sort_strings_parallel(v)) PS(const unsigned char *, , sort_strings_parallel_lcp(v, lb.p))
    { auto v = str; sort_strings_parallel_lcp(v, lb.p); check_sorted("sort_strings_parallel_lcp", "std::string", L, [&](int i) { return v[i].c_str(); }, lb.p, tmp); }
  
#undef PS
  delete[] tmp;
}struct PubC : PSBase { void alg(const List &L) override { public_sort(L); } };
void add_public(mc::Suite &s, bool T) {
  const Words X{"", "a", "aaaaaaaa", "aaaaaaaaaaaaaaaab", "aaaaaaaab", "b", "\xff"};
  for (int wk = 1; wk <= (T ? 2 : 1); wk++) { auto *d = new PubC(); d->w = X; d->len = T ? 2 : 1; d->Ns = {5, 40}; d->workers = wk; d->nthreads = 1; d->fill = 0; d->bound = 0; d->weight = 200; d->name = "public sample sort, " + std::to_string(wk) + " workers"; s.conc.push_back(d); }
}
