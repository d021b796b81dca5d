#pragma once
#include "tlx/sort/strings/string_ptr.hpp"
#include "tlx/sort/strings/string_set.hpp"
#include "tlxsort.h"
namespace D = tlx::sort_strings_detail;
// ---------------------------------------------------------------- strings
enum SetKind { UCHAR, CUCHAR, STD, UPTR };
static const char *setname[] = {"unsigned char*", "const unsigned char*", "std::string", "unique_ptr<string>"};
static int lcp_of(const char *a, const char *b) { int i = 0; while (a[i] && a[i] == b[i]) i++; return i; }
static int ucmp(const char *a, const char *b) { return strcmp(a, b); }

struct List { int n; const char **w; };   // words by position
template <class F> static void check_sorted(const char *what, const char *set, const List &L, F get, const uint32_t *lcp, const char **tmp) {
  // expected order (contents), same multiset
  for (int i = 0; i < L.n; i++) tmp[i] = L.w[i];
  std::sort(tmp, tmp + L.n, [](const char *a, const char *b) { return ucmp(a, b) < 0; });
  for (int i = 0; i < L.n; i++) {
    const char *g = get(i);
    if (!g || strcmp(g, tmp[i])) { mc::fail("%s (%s) of %d strings: '%s' at %d instead of '%s'", what, set, L.n, g ? g : "(none)", i, tmp[i]); return; }
    if (lcp && i && lcp[i] != (uint32_t)lcp_of(tmp[i - 1], tmp[i])) { mc::fail("%s (%s) of %d strings: lcp %u at %d instead of %d", what, set, L.n, lcp[i], i, lcp_of(tmp[i - 1], tmp[i])); return; }
  }
}
struct LcpBuf { uint32_t *p; int n; LcpBuf(int n) : n(n) { p = new uint32_t[n + 1]; for (int i = 0; i <= n; i++) p[i] = 0xDEADBEEF; } ~LcpBuf() { if (p[n] != 0xDEADBEEF) mc::fail("lcp written behind the array"); delete[] p; } };

// A: functor called with a string pointer object
template <int Mask = 255, class A> static void on_set(const char *what, int kind, bool with_lcp, const List &L, A alg) {
  const char **tmp = new const char *[L.n + 1];
  LcpBuf lb(with_lcp ? L.n : 0); const uint32_t *lp = with_lcp ? lb.p : nullptr;
#define RUN(K, Set, b) { Set ss(b, b + L.n); if (with_lcp) { if constexpr ((Mask >> (2 * K + 1)) & 1) alg(D::StringLcpPtr<Set, uint32_t>(ss, lb.p)); else abort(); } else { if constexpr ((Mask >> (2 * K)) & 1) alg(D::StringPtr<Set>(ss)); else abort(); } }
  if (kind == UCHAR || kind == CUCHAR) {
    const char **p = new const char *[L.n + 2]; for (int i = 0; i < L.n; i++) p[i + 1] = L.w[i]; p[0] = p[L.n + 1] = "guard";
    if (kind == UCHAR) RUN(UCHAR, D::UCharStringSet, ((unsigned char **)p + 1)) else RUN(CUCHAR, D::CUCharStringSet, ((const unsigned char **)p + 1))
    // the very pointers, not only the contents
    uintptr_t x = 0, y = 0; for (int i = 0; i < L.n; i++) { x += (uintptr_t)p[i + 1] * (uintptr_t)p[i + 1]; y += (uintptr_t)L.w[i] * (uintptr_t)L.w[i]; }
    if (x != y) mc::fail("%s (%s): the pointers are not a permutation of the input", what, setname[kind]);
    check_sorted(what, setname[kind], L, [&](int i) { return p[i + 1]; }, lp, tmp);
    delete[] p;
  } else if (kind == STD) {
    std::vector<string> v(L.n); for (int i = 0; i < L.n; i++) v[i] = L.w[i];
    RUN(STD, D::StdStringSet, v.data())
    check_sorted(what, setname[kind], L, [&](int i) { return v[i].c_str(); }, lp, tmp);
  } else {
    std::vector<std::unique_ptr<string>> v(L.n); for (int i = 0; i < L.n; i++) v[i].reset(new string(L.w[i]));
    RUN(UPTR, D::UPtrStdStringSet, v.data())
    check_sorted(what, setname[kind], L, [&](int i) { return v[i] ? v[i]->c_str() : nullptr; }, lp, tmp);
  }
#undef RUN
  delete[] tmp;
}
struct PSBase : mc::Config {
  Words w; int len; std::vector<int> Ns; int workers; int kind; bool lcp;
  virtual void alg(const List &L) = 0;
  void body(int) override {
    int v[8]; for (int i = 0; i < len; i++) v[i] = mc::env_choice(w.size());
    int N = Ns[Ns.size() > 1 ? mc::env_choice(Ns.size()) : 0]; bool blocks = len > 1 && mc::env_choice(2);
    the_workers = workers; long lb;
    std::vector<const char *> l; for (int i = 0; i < N; i++) l.push_back(w[v[blocks ? i * len / N : i % len]]);
    List L{N, l.data()};
    lb = mc::live_blocks(); alg(L);
    if (mc::live_blocks() != lb) mc::fail("parallel string sort leaves %ld blocks", mc::live_blocks() - lb);
  }
};
