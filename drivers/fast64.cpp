// FAST (C34): the real Rust tree builder and portable lookup, the C page search in its portable and its AVX-512 form.
// The state of a sequential exploration is the input (a key set, a page); every key, its neighbours and the extremes
// are looked up.
#include <stdint.h>
#include "tlxsort.h"
#include "FAST/fast64.h"
int the_workers = 1;
extern "C" {
uint64_t slow_fast64(Fast64 *, uint64_t, uint64_t *); uint64_t slow_fast32(Fast32 *, uint32_t, uint32_t *);
#define LOOKUP(sfx) \
  void fast_lookup64##sfx(const uint64_t **, uint64_t, const uint64_t *, uint64_t, uint64_t *, uint64_t *); \
  void fast_lookup32##sfx(const uint32_t **, uint32_t, const uint32_t *, uint32_t, uint32_t *, uint32_t *); \
  int count_greater64##sfx(const uint64_t *, uint64_t); int count_greater_eq64##sfx(const uint64_t *, uint64_t); int count_greater32##sfx(const uint32_t *, uint32_t); int count_greater_eq32##sfx(const uint32_t *, uint32_t);
LOOKUP(_plain) LOOKUP(_avx)
static int mode;  // which page search the Rust library is linked with
void fast_lookup64(const uint64_t **p, uint64_t n, const uint64_t *l, uint64_t q, uint64_t *a, uint64_t *b) { (mode ? fast_lookup64_avx : fast_lookup64_plain)(p, n, l, q, a, b); }
void fast_lookup32(const uint32_t **p, uint32_t n, const uint32_t *l, uint32_t q, uint32_t *a, uint32_t *b) { (mode ? fast_lookup32_avx : fast_lookup32_plain)(p, n, l, q, a, b); }
}
static bool has_avx() { static bool b = __builtin_cpu_supports("avx512f"); return b; }
template <class U> struct Api;
template <> struct Api<uint64_t> { typedef Fast64 T; static T *create(const uint64_t *k, uint64_t n, const uint64_t *v) { return create_fast64(k, n, v, n); } static void destroy(T *t) { destroy_fast64(t); } static void find(T *t, uint64_t k, uint64_t *o) { lookup_fast64(t, k, o, o + 1); } static uint64_t slow(T *t, uint64_t k, uint64_t *o) { return slow_fast64(t, k, o); } static uint64_t size(T *t) { return size_fast64(t); } static int gt(const uint64_t *p, uint64_t k) { return (mode ? count_greater64_avx : count_greater64_plain)(p, k); } static int ge(const uint64_t *p, uint64_t k) { return (mode ? count_greater_eq64_avx : count_greater_eq64_plain)(p, k); } };
template <> struct Api<uint32_t> { typedef Fast32 T; static T *create(const uint32_t *k, uint64_t n, const uint32_t *v) { return create_fast32(k, n, v, n); } static void destroy(T *t) { destroy_fast32(t); } static void find(T *t, uint32_t k, uint32_t *o) { lookup_fast32(t, k, o, o + 1); } static uint64_t slow(T *t, uint32_t k, uint32_t *o) { return slow_fast32(t, k, o); } static uint64_t size(T *t) { return size_fast32(t); } static int gt(const uint32_t *p, uint32_t k) { return (mode ? count_greater32_avx : count_greater32_plain)(p, k); } static int ge(const uint32_t *p, uint32_t k) { return (mode ? count_greater_eq32_avx : count_greater_eq32_plain)(p, k); } };
template <class U> static bool check(const std::vector<U> &k, const std::vector<U> &v) {
  typedef Api<U> A; size_t n = k.size(), fan = 64 / sizeof(U); auto *t = A::create(k.data(), n, v.data()); bool ok = true;
  std::vector<U> q; for (U x : k) for (U y : {x, (U)(x - 1), (U)(x + 1)}) q.push_back(y); for (U y : {(U)0, (U)1, (U)-1, (U)-2, (U)((U)1 << (8 * sizeof(U) - 1)), (U)((U)-1 >> 1)}) q.push_back(y); std::sort(q.begin(), q.end()); q.erase(std::unique(q.begin(), q.end()), q.end());
  for (U x : q) {
    size_t r = std::upper_bound(k.begin(), k.end(), x) - k.begin(); U a = r ? v[r - 1] : 0, b = r < n ? v[r] : (U)-1;
    for (int m = 0; m < 3 && ok; m++) { if (m == 1 && !has_avx()) continue; mode = m; U o[2] = {77, 77}; uint64_t depth = 0; if (m == 2) depth = A::slow(t, x, o); else A::find(t, x, o); ok = o[0] == a && o[1] == b; if (!ok) mc::fail("%s lookup of %llu among %zu %zu-bit keys gives (%llu, %llu), expected (%llu, %llu)", m == 0 ? "plain" : m == 1 ? "AVX-512" : "slow", (unsigned long long)x, n, 8 * sizeof(U), (unsigned long long)o[0], (unsigned long long)o[1], (unsigned long long)a, (unsigned long long)b); else if (m == 2) { uint64_t d = 1; size_t pages = (n + fan - 1) / fan; do { pages = (pages + fan - 1) / fan; d++; } while (pages > 1); if (d != depth) { mc::fail("depth %llu of a tree of %zu keys, expected %llu", (unsigned long long)depth, n, (unsigned long long)d); ok = false; } } }
    if (!ok) break;
  }
  if (ok) { uint64_t sz = 0; size_t pages = (n + fan - 1) / fan; sz += pages * 128; do { pages = (pages + fan - 1) / fan; sz += pages * 128; } while (pages > 1); if (A::size(t) != sz) { mc::fail("size %llu of a tree of %zu keys, expected %llu", (unsigned long long)A::size(t), n, (unsigned long long)sz); ok = false; } }
  A::destroy(t); return ok;
}
// every number of keys, in several spacings
template <class U> struct Sizes : In {
  int lo, kind; Sizes(const string &nm, int lo, int n, int kind) : lo(lo), kind(kind) { fix(nm, n, 1, n); }
  string letter_name(int l) override { return std::to_string(lo + l) + " keys"; }
  void run() override {
    if (!s->n) return; int n = lo + s->v[0]; std::vector<U> k, v; const U top = (U)-1, mid = (U)1 << (8 * sizeof(U) - 1);
    for (int i = 0; i < n; i++) { switch (kind) { case 0: k.push_back(i); break; case 1: k.push_back(2 * i + 1); break; case 2: k.push_back(mid - n + 2 * i); break; case 3: k.push_back(top - 3 * (n - 1 - i)); break; case 4: k.push_back(top - (n - i)); break; default: k.push_back((U)i * (top / n)); } v.push_back(kind % 2 ? (U)i * 0x9e3779b9u + 3 : (U)i); }
    check(k, v);
  }
};
// every set of keys from a small universe
template <class U> struct Subsets : In {
  std::vector<U> u; Subsets(const string &nm, std::vector<U> u) : u(u) { fix(nm, 2, (int)u.size(), 3); }
  void run() override { if (s->n < (int)u.size()) return; std::vector<U> k, v; for (int i = 0; i < s->n; i++) if (s->v[i]) { k.push_back(u[i]); v.push_back(i * 5 + 1); } if (!k.empty()) check(k, v); }
};
// every sorted page over some values, every key
template <class U> struct PageMulti : In {  // letter i: how often value i occurs
  std::vector<U> u; static const int fan = 64 / sizeof(U); PageMulti(const string &nm, std::vector<U> u) : u(u) { fix(nm, fan + 1, (int)u.size() - 1, 3); }
  void run() override {
    int left = fan; std::vector<U> p; for (int i = 0; i < s->n; i++) { if (s->v[i] > left) return; left -= s->v[i]; p.insert(p.end(), s->v[i], u[i]); } p.insert(p.end(), left, u[s->n]); if (s->n && s->n < (int)u.size() - 1 && !left) return;
    U *pg = (U *)aligned_alloc(64, 64); memcpy(pg, p.data(), 64);
    for (U x : u) for (U q : {x, (U)(x - 1), (U)(x + 1)}) { int g = std::lower_bound(p.begin(), p.end(), q) - p.begin(), e = std::upper_bound(p.begin(), p.end(), q) - p.begin(); for (mode = 0; mode <= (int)has_avx(); mode++) { int a = Api<U>::gt(pg, q), b = Api<U>::ge(pg, q); if (a != g || b != e) { mc::fail("page search (%s) for %llu: %d and %d, expected %d and %d", mode ? "AVX-512" : "plain", (unsigned long long)q, a, b, g, e); free(pg); return; } } }
    free(pg);
  }
};
int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const string &, const string &tier) {
    mc::Suite s; bool T = tier != "quick";
    s.rule = "every non-initial state is one distinct key set or page; every key, its neighbours and the extremes are looked up in it";
    auto add = [&](In *c) { s.seq.push_back(c); };
    for (int kind = 0; kind < 6; kind++) { string k = std::to_string(kind); add(new Sizes<uint64_t>("sizes64-" + k, 1, T ? 2000 : 600, kind)); add(new Sizes<uint32_t>("sizes32-" + k, 1, T ? 2000 : 600, kind)); for (int b : {512, 4096}) if (T || b == 512 || kind == 1) add(new Sizes<uint64_t>("sizes64-" + std::to_string(b) + "-" + k, b - 20, T ? 60 : 30, kind)); for (int b : {256, 4096}) if (T || b == 256 || kind == 1) add(new Sizes<uint32_t>("sizes32-" + std::to_string(b) + "-" + k, b - 20, T ? 60 : 30, kind)); }
    std::vector<uint64_t> u8 = {0, 1, 2, 5, 9, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0x8000000000000001ull, ~0ull - 2, ~0ull - 1, ~0ull}; std::vector<uint32_t> u4 = {0, 1, 2, 5, 0x7fffffff, 0x80000000, 0x80000001, ~0u - 2, ~0u - 1, ~0u};
    std::vector<uint64_t> w8 = u8; for (uint64_t x : {100ull, 101ull, 102ull, 103ull}) w8.push_back(x); if (T) for (uint64_t x : {200ull, 201ull}) w8.push_back(x); std::sort(w8.begin(), w8.end());
    std::vector<uint32_t> w4 = u4; for (int i = 0; i < (T ? 10 : 8); i++) w4.push_back(300 + 2 * i); std::sort(w4.begin(), w4.end());
    add(new Subsets<uint64_t>("subsets64", w8)); add(new Subsets<uint32_t>("subsets32", w4));
    add(new PageMulti<uint64_t>("pages64", {0, 1, 7, 0x7fffffffffffffffull, 0x8000000000000000ull, ~0ull})); add(new PageMulti<uint32_t>("pages32", {0, 7, 0x7fffffff, 0x80000000, ~0u}));
    return s;
  });
}
