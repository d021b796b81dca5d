// libmcrt: the explorer.  Not instrumented; owns all nondeterminism of the code under test.
#include "mc.h"
#include <cxxabi.h>
#include <dlfcn.h>
#include <elf.h>
#include <errno.h>
#include <fcntl.h>
#include <link.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;
typedef uintptr_t uptr;

extern "C" {
void *__libc_malloc(size_t);
void __libc_free(void *);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
}

namespace {
#define INL inline __attribute__((always_inline))
#define UNLIKELY(x) __builtin_expect(!!(x), 0)
#define LIKELY(x) __builtin_expect(!!(x), 1)

constexpr uptr BASE = 0x100000000000ull;
constexpr int NF = mc::MAXT;                  // fibers incl. main fiber 0
constexpr u64 A0SZ = 4ull << 30, ATSZ = 256ull << 20;
constexpr uptr ARENA_END = BASE + A0SZ + (NF - 1) * ATSZ;
constexpr u64 STKSZ = 512 << 10;
constexpr uptr STK = ARENA_END + (1 << 20);
constexpr uptr TLSR = STK + NF * (STKSZ + 65536);
constexpr u64 TLSSZ = 256 << 10;
constexpr uptr REGION_END = TLSR + NF * TLSSZ;
constexpr u64 REGION_WORDS = (REGION_END - BASE) >> 3;
constexpr u64 EXE_WORDS_MAX = (64ull << 20) >> 3;
constexpr uptr SHADOW = 0x200000000000ull;    // 1 byte per 8 bytes of arena
constexpr uptr TRACK = 0x300000000000ull;     // 2 bytes per word

INL uptr arena_base(int i) { return i == 0 ? BASE : BASE + A0SZ + (u64)(i - 1) * ATSZ; }
INL int arena_of(uptr a) { return a < BASE + A0SZ ? 0 : 1 + (int)((a - BASE - A0SZ) / ATSZ); }
INL u8 *shadow_of(uptr a) { return (u8 *)(SHADOW + ((a - BASE) >> 3)); }

// ---------------------------------------------------------------- arena header (inside the region, so snapshotted)
struct FreeBlk { FreeBlk *next; };
constexpr int NCLS = 64;
struct ArenaHdr {
  u64 bump;              // next free address
  u64 nalloc;
  u64 nfree;
  FreeBlk *fl[NCLS];     // canonical mode: exact 16-byte classes up to 1024, ascending address order
};
struct BlkHdr { u64 size; u64 magic; };   // precedes user memory (16 bytes)
constexpr u64 MAGIC = 0x4d434d43a110c8edull, MAGICF = 0x4d434d43f4eef4eeull;

struct Track { u8 r, w; };

enum Status : u8 { UNUSED, READY, SPIN, BLOCK, DONE };
enum Reason { R_DONE, R_PRUNED, R_FAIL, R_RETURN };

struct RingE { u64 sig0, sig; u64 hist; uptr a; bool chg; };
constexpr int RING = 256;
constexpr int NW = 72;

struct Fiber {
  void *sp;
  u64 fs;
  uptr stk_lo, stk_hi;
  std::function<void()> *fn;
  Status st;
  u64 hist;
  // spin detection
  RingE ring[RING];
  u32 rn;                 // events since last progress
  u32 phase;              // rotates the point of a periodic loop at which it is suspended
  u64 loc;                // unshared accesses since the last event
  uptr watch[NW];
  int nwatch;             // -1: any
  u32 spins;
  u64 ops_ev;             // events in current op (fairness)
  // history
  int curop;              // index of op in flight or -1
  int nops;
  bool started;
  bool skip;               // the choice that resumed this thread already covers its next event
  bool cond_signaled;
  void *keys[64];
};

struct Node { u8 en, chosen, tried, curen; u8 cost; u8 isenv; u8 cur; u8 pad; u32 h; };
constexpr u32 MAXNODES = 4u << 20;

struct Pend { uptr a; u64 old; };

struct Trace { u64 pc; uptr a; u64 v; u8 tid, kind, sz; };

struct Glob {
  bool inited;
  bool target;            // allocate from the arena
  bool on;                // hooks active
  bool conc;              // concurrent phase
  int cur;                // current fiber or -1
  int setup_arena;
  Fiber f[NF];
  void *host_sp; u64 host_fs;
  Reason reason;
  char msg[4096]; bool failed;
  // exploration
  u32 nchoice, nnodes;
  Node *nodes;
  int cost, bound, spur;
  u64 nev, execs, hookn;
  bool grew;
  u64 memhash, histhash;
  mc::opset completed;          // mask of completed op ids
  int ready, nfib;
  int desp; bool despmode;
  bool tracing; Trace *tr; u64 ntr;
  Pend pend[2048]; int npend; int pend_tid;
  Pend uw[24]; int nuw;   // plain stores to words not (yet) shared: did they change the value?
  uptr exe_lo, exe_hi;
  u64 vclock;
  bool canonical;
  u8 fill = 0xBE;          // contents of fresh memory
  u64 maxev;
  int nkeys;
  bool use_cache;
  u64 transitions;
  bool replay_strict;
  bool nondet;
} g;

struct OpSlot { int op; long a, b, c, r; int nd; long d[mc::MAXDATA]; bool invoked, done; mc::opset before; };
OpSlot *ops;              // [NF*MAXOPS] in host memory
long *fins; int nfins;

u64 h2(u64 h, u64 x) {
  h ^= x * 0x9e3779b97f4a7c15ull;
  h = (h ^ (h >> 32)) * 0xd6e8feb86659fd93ull;
  h = (h ^ (h >> 29)) * 0xd6e8feb86659fd93ull;
  return h ^ (h >> 32);
}
u64 fold(mc::opset b) { return (u64)b ^ (u64)(b >> 64) * 0x9E3779B97F4A7C15ull; }
u64 mixw(u64 a, u64 v) { return h2(h2(0x1234567ull, a), v); }

void *real_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { return (void *)syscall(9, a, n, prot, fl, fd, o); }
int real_munmap(void *a, size_t n) { return syscall(11, a, n); }
void *map_at(uptr a, u64 sz) {
  void *p = real_mmap((void *)a, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)a) { static const char m[] = "mcrt: cannot map region\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  return p;
}
void *map_any(u64 sz) {
  void *p = real_mmap(0, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { static const char m[] = "mcrt: mmap failed\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
  return p;
}


bool initing;
void init_region() {
  if (g.inited) return;
  g.inited = true;
  g.target = true; g.cur = -1;
  map_at(BASE, REGION_END - BASE);
  map_at(SHADOW, (ARENA_END - BASE) >> 3);
  map_at(TRACK, (REGION_WORDS + EXE_WORDS_MAX) * 2);
  for (int i = 0; i < NF; i++) ((ArenaHdr *)arena_base(i))->bump = arena_base(i) + 4096;
  g.nodes = (Node *)map_any(sizeof(Node) * (u64)MAXNODES);
  g.tr = (Trace *)map_any(sizeof(Trace) * (4ull << 20));
  ops = (OpSlot *)map_any(sizeof(OpSlot) * NF * mc::MAXOPS);
  fins = (long *)map_any(sizeof(long) * 65536);
}

// ---------------------------------------------------------------- context switch
extern "C" void mc_switch(void **save, void *sp, u64 fs);
asm(R"(
.text
.globl mc_switch
.hidden mc_switch
.type mc_switch,@function
mc_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  wrfsbase %rdx
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
)");

void to_host(Reason r) {
  int c = g.cur;
  g.reason = r; g.cur = -1; g.target = false; g.on = false;
  mc_switch(&g.f[c].sp, g.host_sp, g.host_fs);
  __builtin_unreachable();
}

void switch_fiber(int to) {
  int c = g.cur;
  if (c == to) return;
  g.cur = to;
  mc_switch(&g.f[c].sp, g.f[to].sp, g.f[to].fs);
}

void thread_finished();
void flush_pending();

__attribute__((noinline)) void fiber_entry() {
  Fiber &f = g.f[g.cur];
  f.started = true;
  (*f.fn)();
  if (g.conc) thread_finished();
  to_host(R_RETURN);
}

void prep_fiber(int i, std::function<void()> *fn) {
  Fiber &f = g.f[i];
  f.fn = fn; f.started = false; f.skip = true;
  memset((void *)(f.stk_hi - 12288), 0xA7, 12288);
  u64 *s = (u64 *)f.stk_hi;
  *--s = 0;
  *--s = (u64)&fiber_entry;   // rsp = 8 mod 16 on entry

  for (int k = 0; k < 6; k++) *--s = 0;
  f.sp = s;
}

// run fn on fiber i to completion (no other fiber runs)
Reason run_on(int i, std::function<void()> fn) {
  prep_fiber(i, &fn);
  g.cur = i; g.target = true; g.on = true;
  mc_switch(&g.host_sp, g.f[i].sp, g.f[i].fs);
  return g.reason;
}

void vfailf(const char *fmt, va_list ap) {
  if (!g.failed) { g.failed = true; vsnprintf(g.msg, sizeof g.msg, fmt, ap); }
}
void failf(const char *fmt, ...) {
  va_list ap; va_start(ap, fmt); vfailf(fmt, ap); va_end(ap);
  if (g.cur >= 0) to_host(R_FAIL);
}

// ---------------------------------------------------------------- allocator
INL void shadow_set(uptr a, u64 sz, bool alloc) {
  u8 *s = shadow_of(a);
  if (alloc) {
    memset(s, 8, sz >> 3);
    if (sz & 7) s[sz >> 3] = sz & 7;
  } else memset(s, 0xFD, (sz + 7) >> 3);
}

int cur_arena() { return g.cur > 0 ? g.cur : 0; }

void *arena_alloc(u64 sz, u64 align, bool zero) {
  init_region();
  if (align < 16) align = 16;
  int ai = cur_arena();
  ArenaHdr *A = (ArenaHdr *)arena_base(ai);
  u64 rs = (sz + 15) & ~15ull; if (!rs) rs = 16;
  A->nalloc++;
  if (g.canonical && align == 16 && rs / 16 < NCLS) {
    FreeBlk *b = A->fl[rs / 16];
    if (b) {
      A->fl[rs / 16] = b->next;
      BlkHdr *h = (BlkHdr *)((uptr)b - 16); h->size = sz; h->magic = MAGIC;
      memset(b, zero ? 0 : g.fill, rs);
      shadow_set((uptr)b, rs, false); shadow_set((uptr)b, sz, true);
      return b;
    }
  }
  uptr p = (A->bump + 16 + align - 1) & ~(align - 1);
  uptr end = p + rs + 16;
  u64 lim = ai == 0 ? A0SZ : ATSZ;
  if (end > arena_base(ai) + lim) {
    static const char m[] = "mcrt: arena exhausted\n"; (void)!write(2, m, sizeof m - 1);
    if (g.cur >= 0) failf("arena exhausted (%llu bytes requested)", (unsigned long long)sz);
    _exit(3);
  }
  for (uptr q = A->bump; q < p - 16; q += 16) ((BlkHdr *)q)->magic = 0;      // no stale header in a gap (free_tagged)
  ((BlkHdr *)(end - 16))->magic = 0;
  A->bump = end;
  BlkHdr *h = (BlkHdr *)(p - 16); h->size = sz; h->magic = MAGIC;
  memset((void *)p, zero ? 0 : g.fill, rs);
  shadow_set(p, sz, true);
  return (void *)p;
}

void sync_free(uptr p, u64 sz);
struct FreeLog { uptr p; u64 sz; };
FreeLog *flog; u32 nflog; bool snapped;

void arena_free(void *p) {
  BlkHdr *h = (BlkHdr *)((uptr)p - 16);
  if (h->magic == MAGICF) { failf("double free of %p", p); return; }
  if ((h->magic & ~0xF00ull) != (MAGIC & ~0xF00ull)) { failf("invalid free of %p", p); return; }
  u64 sz = h->size;
  if (snapped) {
    if (!flog) flog = (FreeLog *)map_any(sizeof(FreeLog) << 20);
    flog[nflog++] = {(uptr)p, sz};
  }
  if (g.conc) sync_free((uptr)p, sz);
  h->magic = MAGICF;
  ((ArenaHdr *)arena_base(arena_of((uptr)p)))->nfree++;
  shadow_set((uptr)p, sz ? sz : 1, false);
  if (!g.conc) {
    if (g.canonical) {
      u64 rs = (sz + 15) & ~15ull; if (!rs) rs = 16;
      memset(p, 0xDD, rs);
      if (rs / 16 < NCLS && ((uptr)p & 15) == 0) {
        ArenaHdr *A = (ArenaHdr *)arena_base(arena_of((uptr)p));
        FreeBlk **q = &A->fl[rs / 16];
        while (*q && (uptr)*q < (uptr)p) q = &(*q)->next;
        ((FreeBlk *)p)->next = *q; *q = (FreeBlk *)p;
      }
    }
  }
}

INL bool in_region(const void *p) { return (uptr)p - BASE < REGION_END - BASE; }
INL bool in_arena(uptr p) { return p - BASE < ARENA_END - BASE; }

// ---------------------------------------------------------------- memory checks
__attribute__((noinline, cold)) void bad_access(uptr a, u32 sz, bool w, u64 pc, u8 sv) {
  Dl_info di; u64 off = pc; if (dladdr((void *)pc, &di) && di.dli_fbase) off = pc - (u64)di.dli_fbase;
  failf("%s of %u bytes at %s memory (pc +%#llx, addr %#llx) by thread %d", w ? "write" : "read", sz,
        sv == 0xFD ? "freed" : "unallocated/out-of-bounds", (unsigned long long)(off), (unsigned long long)a, g.cur);
}
INL void check_mem(uptr a, u32 sz, bool w, u64 pc) {
  if (in_arena(a)) {
    u8 *s = shadow_of(a);
    u32 o = a & 7;
    if (LIKELY(o + sz <= 8)) {
      if (UNLIKELY(o + sz > *s || *s > 8)) bad_access(a, sz, w, pc, *s);
      return;
    }
    u32 rem = sz; uptr p = a;
    while (rem) {
      u32 oo = p & 7, n = 8 - oo; if (n > rem) n = rem;
      u8 v = *shadow_of(p);
      if (UNLIKELY(oo + n > v || v > 8)) { bad_access(a, sz, w, pc, v); return; }
      p += n; rem -= n;
    }
  } else if (UNLIKELY(a - STK < TLSR - STK)) {
    int f = (a - STK) / (STKSZ + 65536);
    if (f != g.cur && g.conc && g.f[f].st != UNUSED) {
      if (g.f[f].st == DONE || a + 256 < (uptr)g.f[f].sp)
        failf("%s of %u bytes on a dead stack frame of thread %d (pc %#llx) by thread %d", w ? "write" : "read", sz, f, (unsigned long long)pc, g.cur);
    }
  }
}

// ---------------------------------------------------------------- tracking
INL u64 widx(uptr a) {
  if (a - BASE < REGION_END - BASE) return (a - BASE) >> 3;
  if (a - g.exe_lo < g.exe_hi - g.exe_lo) return REGION_WORDS + ((a - g.exe_lo) >> 3);
  return ~0ull;
}
// A word is a scheduling point ("shared") once at least two threads accessed it in the concurrent phase
// and some access changed its value: words that never change carry no information between threads.
// r: threads that accessed it; w: bit 0 shared, bit 1 changed.
INL bool touch1(u64 w, bool changed) {
  Track *t = (Track *)TRACK + w;
  u8 m = 1 << g.cur;
  if (UNLIKELY(!(t->r & m))) t->r |= m;
  if (UNLIKELY(changed) && !(t->w & 2)) t->w |= 2;
  if (t->w & 1) return true;
  if ((t->w & 2) && (t->r & (t->r - 1))) { t->w |= 1; g.grew = true; return true; }
  return false;
}
// returns true if any word of [a,a+sz) is shared
INL bool touch(uptr a, u32 sz, bool changed) {
  u64 w = widx(a);
  if (w == ~0ull) return false;
  bool s = touch1(w, changed);
  u32 o = a & 7;
  if (UNLIKELY(o + sz > 8)) {
    uptr e = a + sz;
    for (uptr p = (a & ~7ull) + 8; p < e; p += 8) { u64 x = widx(p); if (x != ~0ull) s |= touch1(x, changed); }
  }
  return s;
}
INL bool is_shared(uptr a) { u64 w = widx(a); return w != ~0ull && (((Track *)TRACK)[w].w & 1); }

// ---------------------------------------------------------------- state cache
struct Cache {
  u64 *k; u8 *b; u64 cap, n;
  void clear() {
    if (k) { real_munmap(k, cap * 8); real_munmap(b, cap); }
    cap = 1 << 16; n = 0; k = (u64 *)map_any(cap * 8); b = (u8 *)map_any(cap);
  }
  void grow() {
    u64 oc = cap; u64 *ok = k; u8 *ob = b;
    cap *= 4; k = (u64 *)map_any(cap * 8); b = (u8 *)map_any(cap);
    for (u64 i = 0; i < oc; i++) if (ok[i]) { u64 j = ok[i] & (cap - 1); while (k[j]) j = (j + 1) & (cap - 1); k[j] = ok[i]; b[j] = ob[i]; }
    real_munmap(ok, oc * 8); real_munmap(ob, oc);
  }
  // true if new (or bigger budget)
  bool insert(u64 h, u8 budget) {
    if (!h) h = 1;
    if (n * 5 > cap * 3) grow();
    u64 j = h & (cap - 1);
    while (k[j]) { if (k[j] == h) { if (b[j] >= budget) return false; b[j] = budget; return true; } j = (j + 1) & (cap - 1); }
    k[j] = h; b[j] = budget; n++;
    return true;
  }
} cache;

u64 state_hash(bool withcur) {
  u64 s = h2(g.memhash, g.histhash);
  for (int t = 1; t < g.nfib; t++) s = h2(s, g.f[t].hist + (u64)g.f[t].st * 0x9e37ull);
  if (withcur) s = h2(s, g.cur + 77);
  return s;
}

// ---------------------------------------------------------------- scheduler
INL void set_status(int t, Status s) {
  g.f[t].st = s;
  if (s == READY) g.ready |= 1 << t; else g.ready &= ~(1 << t);
}

void wake(uptr word) {
  for (int t = 1; t < g.nfib; t++) {
    Fiber &f = g.f[t];
    if (f.st != SPIN && f.st != BLOCK) continue;
    if (f.st == SPIN && f.nwatch < 0) { set_status(t, READY); f.rn = 0; continue; }
    for (int i = 0; i < f.nwatch; i++)
      if (f.watch[i] == word) { set_status(t, READY); f.rn = 0; break; }
  }
}

void word_changed(uptr w, u64 old, u64 nw) {
  g.memhash ^= mixw(w, old) ^ mixw(w, nw);
  g.desp = 0; g.despmode = false;
  wake(w);
}

void flush_uw() {
  for (int i = 0; i < g.nuw; i++)
    if (*(u64 *)g.uw[i].a != g.uw[i].old) { u64 w = widx(g.uw[i].a); if (w != ~0ull) touch1(w, true); }
  g.nuw = 0;
}
void flush_pending() {
  if (g.nuw) flush_uw();
  if (!g.npend) return;
  bool ch = false;
  for (int i = 0; i < g.npend; i++) {
    u64 nv = *(u64 *)g.pend[i].a;
    if (nv != g.pend[i].old) { word_changed(g.pend[i].a, g.pend[i].old, nv); ch = true; }
    Fiber &f = g.f[g.pend_tid];
    if (f.rn) { RingE &e = f.ring[(f.rn - 1) % RING]; e.sig = h2(e.sig, nv); e.chg |= ch; }
  }
  g.npend = 0;
}

// choose among en; returns chosen fiber
int choose(u8 en, bool curen) {
  if (g.despmode) {     // everybody waits: fair round robin, no branching
    for (int k = 1; k <= NF; k++) { int t = (g.cur + k) % NF; if (en >> t & 1) return t; }
  }
  u32 idx = g.nchoice++;
  int c;
  if (idx < g.nnodes) {
    Node &n = g.nodes[idx];
    u32 h = (u32)state_hash(true);
    if (n.en != en || n.curen != curen || n.isenv || n.h != h) { if (!g.grew) g.nondet = true; failf("NONDETERMINISM: replay diverged at choice %u (en %x/%x)", idx, n.en, en); }
    c = n.chosen;
    if (curen && c != g.cur) g.cost++;
  } else {
    if (g.use_cache) {
      u8 budget = g.bound == 255 ? 255 : (u8)(g.bound - g.cost);
      if (!cache.insert(state_hash(g.bound != 255), budget)) to_host(R_PRUNED);
    }
    c = curen ? g.cur : -1;
    if (c < 0) for (int k = 1; k <= NF; k++) { int t = (g.cur + k) % NF; if (en >> t & 1) { c = t; break; } }
    if (g.nnodes >= MAXNODES) failf("too many choice points in one execution");
    Node &n = g.nodes[g.nnodes++];
    n = Node{en, (u8)c, (u8)(1 << c), (u8)curen, (u8)g.cost, 0, (u8)g.cur, 0, (u32)state_hash(true)};
  }
  return c;
}

void all_blocked() {
  bool spin = false;
  for (int t = 1; t < g.nfib; t++) if (g.f[t].st == SPIN) spin = true;
  if (!spin) {
    std::string d;
    failf("DEADLOCK: every unfinished thread waits on a lock or condition");
  }
  if (++g.desp > 60) failf("LIVELOCK: every unfinished thread spins and no thread can make progress");
  g.despmode = true;
  for (int t = 1; t < g.nfib; t++) if (g.f[t].st == SPIN) { set_status(t, READY); g.f[t].rn = 0; }
}

// current fiber cannot continue: pick another (or itself again after a wake)
void resched() {
  flush_pending();
  while (!g.ready) all_blocked();
  u8 en = g.ready;
  bool curen = en >> g.cur & 1;
  int c;
  if ((en & (en - 1)) == 0) c = __builtin_ctz(en);
  else c = choose(en, curen);
  int me = g.cur;
  switch_fiber(c);
  g.f[me].skip = true;
}

void thread_finished() {
  flush_pending();
  int t = g.cur;
  set_status(t, DONE);
  g.f[t].hist = h2(g.f[t].hist, 0xD0E);
  for (int k = 1; k < g.nfib; k++)   // joiners
    if (g.f[k].st == BLOCK && g.f[k].nwatch == 1 && g.f[k].watch[0] == (uptr)&g.f[t]) set_status(k, READY);
  bool all = true;
  for (int k = 1; k < g.nfib; k++) if (g.f[k].st != DONE) all = false;
  if (all) to_host(R_DONE);
  resched();
  __builtin_unreachable();
}

INL void sched_point() {
  if (UNLIKELY(g.f[g.cur].skip)) { g.f[g.cur].skip = false; return; }
  u8 en = g.ready;
  if ((en & (en - 1)) == 0) return;
  int c = choose(en, true);
  if (c != g.cur) switch_fiber(c);
}

// bookkeeping when an event of the current thread executes
INL void mark_event() {
  Fiber &f = g.f[g.cur];
  g.nev++; g.transitions++; f.ops_ev++;
  if (f.curop >= 0) {
    OpSlot &o = ops[g.cur * mc::MAXOPS + f.curop];
    if (!o.invoked) {
      o.invoked = true; o.before = g.completed;
      g.histhash ^= mixw(g.cur * mc::MAXOPS + f.curop, h2(fold(o.before), 0x111));
    }
  }
  if (UNLIKELY(g.nev > 400000)) failf("HANG: execution exceeds 400000 shared-memory events");
}
void record_tr(u64 pc, uptr a, u64 v, int kind, int sz) {
  if (g.ntr < (4u << 20)) g.tr[g.ntr++] = Trace{pc, a, v, (u8)g.cur, (u8)kind, (u8)sz};
}

// Busy-wait detection.  If the last events of this thread repeat with a period (same words, same
// values read and written), going round again only repeats states: the thread is suspended until a
// word it looks at changes.  Returns true if it was suspended (the caller must re-evaluate).
bool spin_check(uptr a, u64 sig0) {
  Fiber &f = g.f[g.cur];
  u32 n = f.rn;
  auto R = [&](u32 i) -> RingE & { return f.ring[i % RING]; };
  int period = 0; u32 reps = 0;
  for (u32 p = 1; p <= 64; p++) {
    reps = p == 1 ? 5 : 2;                   // earlier full repetitions required before this event
    if (n < p * reps) continue;
    if (R(n - p).sig0 != sig0) continue;
    bool chg = false;
    for (u32 i = 1; i <= p; i++) chg |= R(n - i).chg;
    if (chg) { reps++; if (n < p * reps) continue; }
    if (p * reps + 1 > RING) continue;
    bool ok = true;
    for (u32 i = 1; i + p <= p * reps && ok; i++) if (R(n - i).sig != R(n - i - p).sig) ok = false;
    if (ok && chg) {                         // suspend a loop that writes at varying points, so that it is caught holding no lock
      if (f.phase > 0) { f.phase--; return false; }
      f.phase = p > 1 ? 1 + (f.spins % p) : 0; f.spins++;
    }
    if (ok) { period = p; break; }
  }
  // A retry loop that leaves a trace at every round (a version that grows, a lock taken and released)
  // never repeats a state: after six rounds over the same sequence of words the others get to run.
  bool loop = false;
  for (u32 p = 1; !period && p <= 40 && n >= 6 * p; p++) {
    u32 need = p >= 4 ? 6 * p : 24;
    if (n < need || R(n - p).a != a) continue;
    bool ok = true, chg = false;
    for (u32 i = 1; i <= need - p && ok; i++) { if (R(n - i).a != R(n - i - p).a) ok = false; chg |= R(n - i).chg; }
    if (!ok || !chg) continue;
    if (f.phase > 0) { f.phase--; return false; }
    f.phase = p > 1 ? 1 + (f.spins % p) : 0; f.spins++;
    period = p; loop = true;
  }
  bool unfair = f.ops_ev > 6000;
  if (!period && !unfair) return false;
  f.ops_ev = 0;
  if (g.ready == (1 << g.cur) && !period) return false;
  f.nwatch = 0;
  if (period) {
    for (int i = 1; i <= period && f.nwatch < NW - 1; i++) f.watch[f.nwatch++] = R(n - i).a & ~7ull;
    f.watch[f.nwatch++] = a & ~7ull;
    if (!loop) f.hist = R(n - period * reps).hist;
  } else f.nwatch = -1;
  set_status(g.cur, SPIN);
  f.rn = 0;
  resched();
  f.rn = 0;
  return true;
}
INL void ring_push(uptr a, u64 sig0, u64 sig, bool chg) {
  Fiber &f = g.f[g.cur];
  f.ring[f.rn % RING] = RingE{sig0, sig, f.hist, a, chg};
  f.rn++; f.loc = 0;
}

INL u64 load_val(uptr a, u32 sz) {
  u64 v = 0;
  switch (sz) {
    case 1: return *(u8 *)a;
    case 2: return *(uint16_t *)a;
    case 4: return *(u32 *)a;
    case 8: return *(u64 *)a;
    default:
      for (u32 i = 0; i < sz; i += 8) { u64 x = 0; memcpy(&x, (void *)(a + i), sz - i < 8 ? sz - i : 8); v = h2(v, x); }
      return v;
  }
}

void ev_read(uptr a, u32 sz, u64 pc) {
  for (;;) {
    flush_pending();
    sched_point();
    u64 v = load_val(a, sz);
    u64 sig = h2(h2(a, v), sz);
    if (spin_check(a, sig)) continue;
    Fiber &f = g.f[g.cur];
    ring_push(a, sig, sig, false);
    f.hist = h2(f.hist, sig);
    mark_event();
    if (UNLIKELY(g.tracing)) record_tr(pc, a, v, 0, sz);
    return;
  }
}
void ev_write(uptr a, u32 sz, u64 pc) {
  for (;;) {
    flush_pending();
    sched_point();
    Fiber &f = g.f[g.cur];
    u64 sig = h2(h2(a, 0x77), sz);
    if (spin_check(a, sig)) continue;
    ring_push(a, sig, sig, false);
    f.hist = h2(f.hist, sig);
    mark_event();
    g.pend_tid = g.cur;
    for (uptr p = a & ~7ull; p < a + sz; p += 8)
      if (is_shared(p)) { if (g.npend < 2048) g.pend[g.npend++] = {p, *(u64 *)p}; } else if (g.nuw < 24) g.uw[g.nuw++] = {p, *(u64 *)p};
    if (UNLIKELY(g.tracing)) record_tr(pc, a, 0, 1, sz);
    return;
  }
}
// generic atomic read-modify-write; fn(old) -> new
template <class T, class F> INL T do_rmw(volatile T *p, F fn, u64 pc) {
  uptr a = (uptr)p;
  check_mem(a, sizeof(T), true, pc);
  if (g.conc && g.nuw) flush_uw();
  if (g.conc && touch(a, sizeof(T), fn(*p) != *p)) {
    for (;;) {
      flush_pending();
      sched_point();
      T old = *p, nw = fn(old);
      u64 ov = load_val(a, sizeof(T));
      u64 sig = h2(h2(a, ov), 0x200 + sizeof(T));
      if (spin_check(a, sig)) continue;
      if (nw == old) {
        ring_push(a, sig, sig, false);
        g.f[g.cur].hist = h2(g.f[g.cur].hist, sig);
        mark_event();
        if (UNLIKELY(g.tracing)) record_tr(pc, a, ov, 2, sizeof(T));
        return old;
      }
      Fiber &f = g.f[g.cur];
      ring_push(a, sig, h2(sig, (u64)nw), true);
      f.hist = h2(f.hist, sig);
      mark_event();
      u64 w[3], o[3]; int n = 0;
      for (uptr q = a & ~7ull; q < a + sizeof(T); q += 8) { w[n] = q; o[n++] = *(u64 *)q; }
      *p = nw;
      for (int i = 0; i < n; i++) if (*(u64 *)w[i] != o[i]) word_changed(w[i], o[i], *(u64 *)w[i]);
      if (UNLIKELY(g.tracing)) record_tr(pc, a, load_val(a, sizeof(T)), 3, sizeof(T));
      return old;
    }
  }
  T old = *p; T nw = fn(old);
  if (nw != old) *p = nw;
  return old;
}

__attribute__((noinline)) void acc_on(uptr a, u32 sz, bool w, u64 pc) {
  check_mem(a, sz, w, pc);
  if (!g.conc) { if (UNLIKELY(++g.hookn > 400000000ull)) { g.hookn = 0; failf("HANG: sequential step exceeds 400M memory accesses"); } return; }
  if (UNLIKELY(++g.hookn > 30000000ull)) failf("HANG: execution exceeds 30M memory accesses");
  if (g.npend | g.nuw) flush_pending();
  if (touch(a, sz, false)) { if (w) ev_write(a, sz, pc); else ev_read(a, sz, pc); }
  else if (w && (in_region((void *)a) || a - g.exe_lo < g.exe_hi - g.exe_lo)) {
    for (uptr p = a & ~7ull; p < a + sz && g.nuw < 24; p += 8) g.uw[g.nuw++] = {p, *(u64 *)p};
  }
  if (UNLIKELY(++g.f[g.cur].loc > 500000)) {
    // long run without any event: possibly a busy wait on a word not yet known to be shared; let the others run
    Fiber &f = g.f[g.cur]; f.loc = 0;
    bool others = false;
    for (int t = 1; t < g.nfib; t++) if (t != g.cur && g.f[t].st != DONE) others = true;
    if (others) { f.nwatch = -1; set_status(g.cur, SPIN); resched(); }
  }
}

INL void acc(uptr a, u32 sz, bool w, u64 pc) { if (UNLIKELY(g.on)) acc_on(a, sz, w, pc); }

void sync_free(uptr p, u64 sz) {
  // freeing is a write to every word of the block: a later access by another thread is an error in
  // some interleaving, so the words that are shared become events
  if (!g.on) return;
  flush_pending();
  bool any = false;
  for (uptr q = p & ~7ull; q < p + sz; q += 8) { u64 w = widx(q); if (touch1(w, true)) any = true; }
  if (any) {
    sched_point();
    Fiber &f = g.f[g.cur];
    f.hist = h2(f.hist, p ^ 0xF4EE); f.rn = 0;
    g.memhash ^= mixw(p, 0xF4EEF4EE);
    mark_event();
    if (g.tracing) record_tr(0, p, sz, 4, 0);
  }
}
}  // namespace

// ================================================================ tsan interface
#define PC ((u64)__builtin_return_address(0))
#define EXP extern "C" __attribute__((visibility("default")))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
EXP void __tsan_vptr_update(void **p, void *) { acc((uptr)p, 8, true, PC); }
EXP void __tsan_vptr_read(void **p) { acc((uptr)p, 8, false, PC); }
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}
#define RW(n)                                                                        \
  EXP void __tsan_read##n(void *a) { acc((uptr)a, n, false, PC); }                   \
  EXP void __tsan_write##n(void *a) { acc((uptr)a, n, true, PC); }                   \
  EXP void __tsan_unaligned_read##n(void *a) { acc((uptr)a, n, false, PC); }         \
  EXP void __tsan_unaligned_write##n(void *a) { acc((uptr)a, n, true, PC); }         \
  EXP void __tsan_volatile_read##n(void *a) { acc((uptr)a, n, false, PC); }          \
  EXP void __tsan_volatile_write##n(void *a) { acc((uptr)a, n, true, PC); }          \
  EXP void __tsan_unaligned_volatile_read##n(void *a) { acc((uptr)a, n, false, PC); } \
  EXP void __tsan_unaligned_volatile_write##n(void *a) { acc((uptr)a, n, true, PC); } \
  EXP void __tsan_read_write##n(void *a) { acc((uptr)a, n, false, PC); acc((uptr)a, n, true, PC); } \
  EXP void __tsan_unaligned_read_write##n(void *a) { acc((uptr)a, n, false, PC); acc((uptr)a, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
static void acc_range(uptr a, u64 n, bool w, u64 pc) {
  if (!g.on || !n) return;
  if (n <= 64) { acc(a, n, w, pc); return; }
  while (n) { u64 k = n > 64 ? 64 : n; acc(a, k, w, pc); a += k; n -= k; }
}
EXP void __tsan_read_range(void *a, unsigned long n) { acc_range((uptr)a, n, false, PC); }
EXP void __tsan_write_range(void *a, unsigned long n) { acc_range((uptr)a, n, true, PC); }
EXP void __tsan_read_range_pc(void *a, unsigned long n, void *) { acc_range((uptr)a, n, false, PC); }
EXP void __tsan_write_range_pc(void *a, unsigned long n, void *) { acc_range((uptr)a, n, true, PC); }

typedef unsigned __int128 u128;
enum { OP_SET, OP_ADD, OP_SUB, OP_AND, OP_OR, OP_XOR, OP_NAND, OP_CAS };
template <class T> __attribute__((noinline)) T rmw(volatile T *a, int op, T v, T e, u64 pc) {
  auto fn = [=](T o) -> T {
    switch (op) {
      case OP_SET: return v;
      case OP_ADD: return o + v;
      case OP_SUB: return o - v;
      case OP_AND: return o & v;
      case OP_OR: return o | v;
      case OP_XOR: return o ^ v;
      case OP_NAND: return ~(o & v);
      default: return o == e ? v : o;
    }
  };
  if (!g.on) { T o = *a, n = fn(o); if (n != o) *a = n; return o; }
  return do_rmw<T>(a, fn, pc);
}
#define ATOM(bits, T)                                                                                                       \
  EXP T __tsan_atomic##bits##_load(const volatile T *a, int) { acc((uptr)a, sizeof(T), false, PC); return *a; }              \
  EXP void __tsan_atomic##bits##_store(volatile T *a, T v, int) { rmw<T>(a, OP_SET, v, 0, PC); }                             \
  EXP T __tsan_atomic##bits##_exchange(volatile T *a, T v, int) { return rmw<T>(a, OP_SET, v, 0, PC); }                      \
  EXP T __tsan_atomic##bits##_fetch_add(volatile T *a, T v, int) { return rmw<T>(a, OP_ADD, v, 0, PC); }                     \
  EXP T __tsan_atomic##bits##_fetch_sub(volatile T *a, T v, int) { return rmw<T>(a, OP_SUB, v, 0, PC); }                     \
  EXP T __tsan_atomic##bits##_fetch_and(volatile T *a, T v, int) { return rmw<T>(a, OP_AND, v, 0, PC); }                     \
  EXP T __tsan_atomic##bits##_fetch_or(volatile T *a, T v, int) { return rmw<T>(a, OP_OR, v, 0, PC); }                       \
  EXP T __tsan_atomic##bits##_fetch_xor(volatile T *a, T v, int) { return rmw<T>(a, OP_XOR, v, 0, PC); }                     \
  EXP T __tsan_atomic##bits##_fetch_nand(volatile T *a, T v, int) { return rmw<T>(a, OP_NAND, v, 0, PC); }                   \
  EXP int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *c, T v, int, int) {                                \
    T e = *c, o = rmw<T>(a, OP_CAS, v, e, PC); if (o == e) return 1; *c = o; return 0; }                                     \
  EXP int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *c, T v, int, int) {                                  \
    T e = *c, o = rmw<T>(a, OP_CAS, v, e, PC); if (o == e) return 1; *c = o; return 0; }                                     \
  EXP T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T v, int, int) { return rmw<T>(a, OP_CAS, v, e, PC); }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64) ATOM(128, u128)
EXP void __tsan_atomic_thread_fence(int) {}
EXP void __tsan_atomic_signal_fence(int) {}

// ================================================================ mem* wrappers (target objects are linked with --wrap)
static bool any_shared(uptr a, u64 n) {
  bool s = false;
  for (uptr p = a & ~7ull; p < a + n; p += 8) { u64 x = widx(p); if (x != ~0ull) s |= touch1(x, false); }
  return s;
}
// unshared bulk write of n bytes: note which words change
static void note_changes(uptr d, const u8 *s, u64 n) {
  for (uptr p = d; p < d + n;) {
    u32 k = 8 - (p & 7); if (k > d + n - p) k = d + n - p;
    if (memcmp((void *)p, s + (p - d), k)) { u64 x = widx(p); if (x != ~0ull) touch1(x, true); }
    p += k;
  }
}
static void check_range(uptr a, u64 n, bool w, u64 pc) {
  if (!in_arena(a) || !n) return;
  for (uptr p = a; p < a + n;) { u32 k = 8 - (p & 7); if (k > a + n - p) k = a + n - p; check_mem(p, k, w, pc); p += k; }
}
static void copy_chunks(u8 *d, const u8 *s, size_t n, bool fwd, u64 pc) {
  size_t i = 0;
  while (i < n) {
    size_t k = n - i < 8 ? n - i : 8;
    size_t off = fwd ? i : n - i - k;
    u64 v = 0;
    if (touch((uptr)s + off, k, false)) ev_read((uptr)s + off, k, pc);
    memcpy(&v, s + off, k);
    if (touch((uptr)d + off, k, memcmp(d + off, &v, k) != 0)) ev_write((uptr)d + off, k, pc);
    memcpy(d + off, &v, k);
    i += k;
  }
}
EXP void *__wrap_memmove(void *d, const void *s, size_t n) {
  if (LIKELY(!g.on) || !n) return memmove(d, s, n);
  u64 pc = PC;
  check_range((uptr)s, n, false, pc); check_range((uptr)d, n, true, pc);
  if (!g.conc) return memmove(d, s, n);
  g.hookn += n / 8; if (g.npend | g.nuw) flush_pending();
  bool sh = any_shared((uptr)s, n) | any_shared((uptr)d, n);
  if (!sh) { note_changes((uptr)d, (const u8 *)s, n); return memmove(d, s, n); }
  copy_chunks((u8 *)d, (const u8 *)s, n, (uptr)d <= (uptr)s, pc);
  return d;
}
EXP void *__wrap_memcpy(void *d, const void *s, size_t n) {
  if (LIKELY(!g.on) || !n) return memcpy(d, s, n);
  u64 pc = PC;
  check_range((uptr)s, n, false, pc); check_range((uptr)d, n, true, pc);
  if (!g.conc) return memmove(d, s, n);
  g.hookn += n / 8; if (g.npend | g.nuw) flush_pending();
  bool sh = any_shared((uptr)s, n) | any_shared((uptr)d, n);
  if (!sh) { note_changes((uptr)d, (const u8 *)s, n); return memmove(d, s, n); }
  copy_chunks((u8 *)d, (const u8 *)s, n, (uptr)d <= (uptr)s, pc);
  return d;
}
EXP void *__wrap_memset(void *d, int c, size_t n) {
  if (LIKELY(!g.on) || !n) return memset(d, c, n);
  u64 pc = PC;
  check_range((uptr)d, n, true, pc);
  if (!g.conc) return memset(d, c, n);
  g.hookn += n / 8; if (g.npend | g.nuw) flush_pending();
  any_shared((uptr)d, n);
  u8 pat[8]; memset(pat, c, 8);
  for (size_t i = 0; i < n;) {
    size_t k = 8 - (((uptr)d + i) & 7); if (k > n - i) k = n - i;
    if (touch((uptr)d + i, k, memcmp((u8 *)d + i, pat, k) != 0)) { ev_write((uptr)d + i, k, pc); }
    memset((u8 *)d + i, c, k); i += k;
  }
  return d;
}
// fetch n bytes word by word into buf, with events on the shared words
static void fetch(u8 *buf, const void *s, size_t n, u64 pc) {
  for (size_t i = 0; i < n;) {
    size_t k = 8 - (((uptr)s + i) & 7); if (k > n - i) k = n - i;
    if (touch((uptr)s + i, k, false)) ev_read((uptr)s + i, k, pc);
    memcpy(buf + i, (const u8 *)s + i, k); i += k;
  }
}
EXP int __wrap_memcmp(const void *a, const void *b, size_t n) {
  if (LIKELY(!g.on) || !n) return memcmp(a, b, n);
  u64 pc = PC;
  check_range((uptr)a, n, false, pc); check_range((uptr)b, n, false, pc);
  if (!g.conc) return memcmp(a, b, n);
  g.hookn += n / 8; if (g.npend | g.nuw) flush_pending();
  if (!(any_shared((uptr)a, n) | any_shared((uptr)b, n)) || n > 8192) return memcmp(a, b, n);
  u8 x[8192], y[8192];
  fetch(x, a, n, pc); fetch(y, b, n, pc);
  return memcmp(x, y, n);
}
EXP void *__tsan_memcpy(void *d, const void *s, size_t n) { return __wrap_memcpy(d, s, n); }
EXP void *__tsan_memmove(void *d, const void *s, size_t n) { return __wrap_memmove(d, s, n); }
EXP void *__tsan_memset(void *d, int c, size_t n) { return __wrap_memset(d, c, n); }
EXP size_t __wrap_strlen(const char *s) {
  if (LIKELY(!g.on)) return strlen(s);
  size_t n = strlen(s); acc_range((uptr)s, n + 1, false, PC); return n;
}
EXP int __wrap_strcmp(const char *a, const char *b) {
  if (LIKELY(!g.on)) return strcmp(a, b);
  size_t i = 0; while (a[i] && a[i] == b[i]) i++;
  acc_range((uptr)a, i + 1, false, PC); acc_range((uptr)b, i + 1, false, PC);
  return strcmp(a, b);
}
EXP int __wrap_strncmp(const char *a, const char *b, size_t n) {
  if (LIKELY(!g.on)) return strncmp(a, b, n);
  size_t i = 0; while (i < n && a[i] && a[i] == b[i]) i++;
  size_t m = i < n ? i + 1 : n;
  acc_range((uptr)a, m, false, PC); acc_range((uptr)b, m, false, PC);
  return strncmp(a, b, n);
}

// ================================================================ malloc family
static long fail_in;
static bool alloc_fails() { return fail_in > 0 && g.target && --fail_in == 0; }
EXP void *malloc(size_t n) { init_region(); if (alloc_fails()) return nullptr; return g.target ? arena_alloc(n, 16, false) : __libc_malloc(n); }
EXP void free(void *p) { if (!p) return; if (in_region(p)) arena_free(p); else __libc_free(p); }
EXP void *calloc(size_t a, size_t b) { init_region(); if (alloc_fails()) return nullptr; return g.target ? arena_alloc(a * b, 16, true) : __libc_calloc(a, b); }
EXP void *realloc(void *p, size_t n) {
  init_region();
  if (!p) return malloc(n);
  if (!in_region(p)) { if (!g.target) return __libc_realloc(p, n); void *q = arena_alloc(n, 16, false); memcpy(q, p, n); return q; }
  if (n == 0) { free(p); return nullptr; }
  u64 os = ((BlkHdr *)((uptr)p - 16))->size;
  void *q = malloc(n);
  memcpy(q, p, os < n ? os : n);
  free(p);
  return q;
}
EXP void *memalign(size_t al, size_t n) { init_region(); if (alloc_fails()) return nullptr; return g.target ? arena_alloc(n, al, false) : __libc_memalign(al, n); }
EXP void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXP int posix_memalign(void **o, size_t al, size_t n) { *o = memalign(al, n); return *o ? 0 : ENOMEM; }
EXP size_t malloc_usable_size(void *p) { if (p && in_region(p)) return ((BlkHdr *)((uptr)p - 16))->size; return 0; }
EXP void *valloc(size_t n) { return memalign(4096, n); }
EXP void *pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~4095ull); }
EXP void *mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) {
  if (g.inited && g.cur >= 0 && g.target && (fl & MAP_ANONYMOUS) && !(fl & MAP_FIXED)) {
    if (fl & MAP_HUGETLB) { errno = ENOMEM; return MAP_FAILED; }
    return arena_alloc(n, 4096, true);
  }
  return real_mmap(a, n, prot, fl, fd, o);
}
EXP int munmap(void *a, size_t n) {
  if (in_region(a)) { arena_free(a); return 0; }
  return real_munmap(a, n);
}
EXP int madvise(void *a, size_t n, int adv) {
  static int (*r)(void *, size_t, int);
  if (g.cur >= 0) return 0;
  if (!r) r = (decltype(r))dlsym(RTLD_NEXT, "madvise");
  return r(a, n, adv);
}
// tbb allocation entry points (header-only use of enumerable_thread_specific)
namespace mc { void fail_alloc(long n) { fail_in = n; } bool alloc_pending() { return fail_in > 0; } }
namespace tbb { namespace detail { namespace r1 {
__attribute__((visibility("default"))) void *cache_aligned_allocate(size_t n) { return memalign(128, n); }
__attribute__((visibility("default"))) void cache_aligned_deallocate(void *p) { free(p); }
__attribute__((visibility("default"))) size_t cache_line_size() { return 128; }
__attribute__((visibility("default"))) void *allocate_memory(size_t n) { return malloc(n); }
__attribute__((visibility("default"))) void deallocate_memory(void *p) { free(p); }
}}}

// ================================================================ time, yields
EXP int clock_gettime(clockid_t c, struct timespec *ts) {
  static int (*r)(clockid_t, struct timespec *);
  if (g.cur >= 0) { g.vclock += 1000; ts->tv_sec = 1000000 + g.vclock / 1000000000; ts->tv_nsec = g.vclock % 1000000000; return 0; }
  if (!r) r = (decltype(r))dlsym(RTLD_NEXT, "clock_gettime");
  return r(c, ts);
}
EXP int gettimeofday(struct timeval *tv, void *tz) {
  struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0;
}
static int mc_sleep(u64 ns) { g.vclock += ns; return 0; }
EXP int sched_yield() { if (g.cur >= 0) return 0; return 0; }
EXP int nanosleep(const struct timespec *r, struct timespec *) {
  if (g.cur >= 0) return mc_sleep(r->tv_sec * 1000000000ull + r->tv_nsec);
  return clock_nanosleep(CLOCK_REALTIME, 0, r, nullptr);
}
EXP int usleep(useconds_t us) {
  if (g.cur >= 0) return mc_sleep(us * 1000ull);
  struct timespec t = {(time_t)(us / 1000000), (long)(us % 1000000) * 1000}; return clock_nanosleep(CLOCK_REALTIME, 0, &t, nullptr);
}

// ================================================================ pthread model
namespace {
template <class R, class... A> R real(const char *n, A... a) {
  static std::map<std::string, void *> *m;   // host only
  (void)m;
  void *p = dlsym(RTLD_NEXT, n);
  return ((R(*)(A...))p)(a...);
}
INL bool modelled() { return g.cur >= 0; }
// event on a lock word; returns after the scheduling point
void lock_event(uptr a, bool w) {
  if (!g.conc || !g.on) return;
  flush_pending();
  if (!touch(a, 8, w)) return;
  do { flush_pending(); sched_point(); } while (spin_check(a, h2(h2(a, *(u64 *)a), 0x300)));
}
void lock_commit(uptr a, u64 old) {
  if (!g.conc || !g.on || !is_shared(a)) return;
  u64 nv = *(u64 *)a;
  Fiber &f = g.f[g.cur];
  u64 sig = h2(h2(a, old), 0x300);
  ring_push(a, sig, h2(sig, nv), nv != old);
  f.hist = h2(f.hist, h2(a, old));
  if (nv != old) word_changed(a, old, nv);
  mark_event();
  if (g.tracing) record_tr(0, a, nv, 5, 8);
}
void block_on(uptr a) {
  Fiber &f = g.f[g.cur];
  f.nwatch = 1; f.watch[0] = a;
  set_status(g.cur, BLOCK);
  resched();
}
// the lock word is the first 8-byte word of the pthread object
int m_lock(u64 *w, bool try_) {
  uptr a = (uptr)w;
  check_mem(a, 8, true, 0);
  for (;;) {
    lock_event(a, true);
    u64 o = *w;
    if (!(o & 0xFFFFFFFFu)) { *w = (o & ~0xFFFFFFFFull) | (g.cur + 1); lock_commit(a, o); return 0; }
    if (try_) { lock_commit(a, o); return EBUSY; }
    if (!g.conc) failf("DEADLOCK: mutex locked twice in a sequential phase");
    if ((o & 0xFFFFFFFFu) == (u64)g.cur + 1) failf("DEADLOCK: thread %d locks a mutex it already holds", g.cur);
    block_on(a);
  }
}
int m_unlock(u64 *w) {
  uptr a = (uptr)w;
  check_mem(a, 8, true, 0);
  lock_event(a, true);
  u64 o = *w;
  if (g.conc && (o & 0xFFFFFFFFu) != (u64)g.cur + 1) failf("mutex unlocked by thread %d that does not hold it", g.cur);
  *w = o & ~0xFFFFFFFFull;
  lock_commit(a, o);
  return 0;
}
// rwlock word: low 16 bits readers, next 16 writer id
int rw_lock(u64 *w, bool wr, bool try_) {
  uptr a = (uptr)w;
  check_mem(a, 8, true, 0);
  for (;;) {
    lock_event(a, true);
    u64 o = *w;
    bool ok = wr ? (o & 0xFFFFFFFFu) == 0 : (o & 0xFFFF0000u) == 0;
    if (ok) { *w = wr ? o | ((u64)(g.cur + 1) << 16) : o + 1; lock_commit(a, o); return 0; }
    if (try_) { lock_commit(a, o); return EBUSY; }
    if (!g.conc) failf("DEADLOCK: rwlock blocked in a sequential phase");
    block_on(a);
  }
}
int rw_unlock(u64 *w) {
  uptr a = (uptr)w;
  check_mem(a, 8, true, 0);
  lock_event(a, true);
  u64 o = *w;
  if (o & 0xFFFF0000u) {
    if (g.conc && ((o >> 16) & 0xFFFF) != (u64)g.cur + 1) failf("rwlock write-unlocked by thread %d that does not hold it", g.cur);
    *w = o & ~0xFFFF0000ull;
  } else if (o & 0xFFFF) *w = o - 1;
  else failf("rwlock unlocked while not held");
  lock_commit(a, o);
  return 0;
}
}  // namespace
EXP int pthread_mutex_lock(pthread_mutex_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_mutex_lock", m); return m_lock((u64 *)m, false); }
EXP int pthread_mutex_trylock(pthread_mutex_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_mutex_trylock", m); return m_lock((u64 *)m, true); }
EXP int pthread_mutex_unlock(pthread_mutex_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_mutex_unlock", m); return m_unlock((u64 *)m); }
EXP int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset((void *)m, 0, sizeof *m); return 0; }
EXP int pthread_mutex_destroy(pthread_mutex_t *m) { if (modelled() && (*(u64 *)m & 0xFFFFFFFFu)) failf("mutex destroyed while locked"); return 0; }
EXP int pthread_rwlock_init(pthread_rwlock_t *m, const pthread_rwlockattr_t *) { memset((void *)m, 0, sizeof *m); return 0; }
EXP int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_rwlock_rdlock", m); return rw_lock((u64 *)m, false, false); }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_rwlock_wrlock", m); return rw_lock((u64 *)m, true, false); }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_rwlock_tryrdlock", m); return rw_lock((u64 *)m, false, true); }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_rwlock_trywrlock", m); return rw_lock((u64 *)m, true, true); }
EXP int pthread_rwlock_unlock(pthread_rwlock_t *m) { if (!modelled()) return g.target ? 0 : real<int>("pthread_rwlock_unlock", m); return rw_unlock((u64 *)m); }
EXP int pthread_spin_init(pthread_spinlock_t *m, int) { *(volatile int *)m = 0; return 0; }
EXP int pthread_spin_destroy(pthread_spinlock_t *) { return 0; }
EXP int pthread_spin_lock(pthread_spinlock_t *m) {
  if (!modelled()) { *(volatile int *)m = 1; return 0; }
  for (;;) {
    u32 o = do_rmw<u32>((volatile u32 *)m, [](u32 x) { return 1u; }, PC);
    if (!o) return 0;
    if (!g.conc) failf("DEADLOCK: spinlock locked twice in a sequential phase");
  }
}
EXP int pthread_spin_trylock(pthread_spinlock_t *m) { if (!modelled()) { *(volatile int *)m = 1; return 0; } return do_rmw<u32>((volatile u32 *)m, [](u32) { return 1u; }, PC) ? EBUSY : 0; }
EXP int pthread_spin_unlock(pthread_spinlock_t *m) { if (!modelled()) { *(volatile int *)m = 0; return 0; } do_rmw<u32>((volatile u32 *)m, [](u32) { return 0u; }, PC); return 0; }

EXP int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset((void *)c, 0, sizeof *c); return 0; }
EXP int pthread_cond_destroy(pthread_cond_t *) { return 0; }
namespace { int env_choose(int n); }
static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
  Fiber &f = g.f[g.cur];
  u64 *w = (u64 *)c;
  uptr a = (uptr)w;
  if (g.conc) touch(a, 8, true);
  f.cond_signaled = false;
  // register as a waiter and release the mutex atomically
  { lock_event(a, true); u64 o = *w; *w = o | (1ull << g.cur); lock_commit(a, o); }
  { u64 o = *(u64 *)m; *(u64 *)m = o & ~0xFFFFFFFFull; lock_commit((uptr)m, o); }
  if (!g.conc) failf("DEADLOCK: condition wait in a sequential phase");
  if (g.spur && !timed && env_choose(2)) {       // a wake-up nobody asked for
    g.spur--;
    { lock_event(a, true); u64 o = *w; *w = o & ~(1ull << g.cur); lock_commit(a, o); }
    m_lock((u64 *)m, false);
    return 0;
  }
  while (*w >> g.cur & 1) {
    if (timed) {
      // may time out: wait as a spinner; being woken in desperation counts as the timeout
      f.nwatch = 1; f.watch[0] = a; set_status(g.cur, SPIN); resched();
      if (*w >> g.cur & 1) { u64 o = *w; *w = o & ~(1ull << g.cur); lock_commit(a, o); m_lock((u64 *)m, false); return ETIMEDOUT; }
    } else { f.nwatch = 1; f.watch[0] = a; set_status(g.cur, BLOCK); resched(); }
  }
  m_lock((u64 *)m, false);
  return 0;
}
EXP int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { if (!modelled()) return real<int>("pthread_cond_wait", c, m); return cond_wait(c, m, false); }
EXP int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { if (!modelled()) return real<int>("pthread_cond_timedwait", c, m, t); return cond_wait(c, m, true); }
EXP int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return cond_wait(c, m, true); }
namespace { int env_choose(int n); }
EXP int pthread_cond_signal(pthread_cond_t *c) {
  if (!modelled()) return g.target ? 0 : real<int>("pthread_cond_signal", c);
  u64 *w = (u64 *)c;
  if (g.conc) touch((uptr)w, 8, true);
  lock_event((uptr)w, true);
  u64 o = *w;
  if (o) {
    int n = __builtin_popcountll(o), k = n > 1 ? env_choose(n) : 0;   // any waiter may be the one woken
    u64 x = o; while (k--) x &= x - 1;
    *w = o & ~(x & -x);
  }
  lock_commit((uptr)w, o);
  return 0;
}
EXP int pthread_cond_broadcast(pthread_cond_t *c) {
  if (!modelled()) return g.target ? 0 : real<int>("pthread_cond_broadcast", c);
  u64 *w = (u64 *)c;
  if (g.conc) touch((uptr)w, 8, true);
  lock_event((uptr)w, true);
  u64 o = *w; *w = 0; lock_commit((uptr)w, o);
  return 0;
}
EXP int pthread_once(pthread_once_t *o, void (*fn)()) {
  if (!modelled() && !g.target) return real<int>("pthread_once", o, fn);
  volatile int *p = (volatile int *)o; if (*p == 0) { *p = 2; fn(); } return 0;
}
EXP int pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  if (!modelled() && !g.target) return real<int>("pthread_key_create", k, d);
  *k = 5000 + g.nkeys++; return 0;
}
EXP int pthread_key_delete(pthread_key_t k) { if (k < 5000) return real<int>("pthread_key_delete", k); return 0; }
EXP void *pthread_getspecific(pthread_key_t k) {
  if (k < 5000) return real<void *>("pthread_getspecific", k);
  return g.f[g.cur < 0 ? 0 : g.cur].keys[k - 5000];
}
EXP int pthread_setspecific(pthread_key_t k, const void *v) {
  if (k < 5000) return real<int>("pthread_setspecific", k, v);
  g.f[g.cur < 0 ? 0 : g.cur].keys[k - 5000] = (void *)v; return 0;
}
EXP int __cxa_thread_atexit(void (*)(void *), void *, void *) { return 0; }
EXP int __cxa_guard_acquire(u64 *gp) {
  volatile u8 *b = (volatile u8 *)gp;
  if (b[0]) return 0;
  if (g.cur < 0 || !g.conc) { b[1] = 1; return 1; }
  for (;;) {
    lock_event((uptr)gp, true);
    if (b[0]) return 0;
    u64 o = *gp;
    if (!b[1]) { b[1] = g.cur; lock_commit((uptr)gp, o); return 1; }
    block_on((uptr)gp);
  }
}
EXP void __cxa_guard_release(u64 *gp) {
  volatile u8 *b = (volatile u8 *)gp;
  if (g.cur < 0 || !g.conc) { b[0] = 1; b[1] = 0; return; }
  lock_event((uptr)gp, true);
  u64 o = *gp; b[1] = 0; b[0] = 1; lock_commit((uptr)gp, o);
}
EXP void __cxa_guard_abort(u64 *gp) { ((volatile u8 *)gp)[1] = 0; }

static std::function<void()> *spawn_fn[NF];
struct SpawnArg { void *(*fn)(void *); void *arg; };
static SpawnArg spawn_arg[NF];
EXP int pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*fn)(void *), void *arg) {
  if (!modelled()) return real<int>("pthread_create", t, at, fn, arg);
  if (!g.conc) failf("thread created outside the concurrent phase");
  if (g.nfib >= NF) failf("too many threads");
  flush_pending();
  int i = g.nfib++;
  spawn_arg[i] = {fn, arg};
  prep_fiber(i, spawn_fn[i]);
  Fiber &f = g.f[i];
  f.hist = h2(0x5eed, i); f.rn = 0; f.phase = 0; f.spins = 0; f.loc = 0; f.ops_ev = 0; f.curop = -1; f.nops = 0;
  set_status(i, READY);
  *t = (pthread_t)f.fs;
  g.f[g.cur].hist = h2(g.f[g.cur].hist, 0xC4EA);
  sched_point();
  g.f[g.cur].hist = h2(g.f[g.cur].hist, 0xC4EB);   // the next choice is in another state, or it would be pruned
  mark_event();
  return 0;
}
EXP int pthread_join(pthread_t t, void **r) {
  if (!modelled()) return real<int>("pthread_join", t, r);
  if (r) *r = nullptr;
  int k = -1;
  for (int i = 1; i < NF; i++) if ((pthread_t)g.f[i].fs == t) k = i;
  if (k < 0 || k >= g.nfib) failf("join of unknown thread");
  flush_pending();
  if (g.f[k].st != DONE) {
    Fiber &f = g.f[g.cur]; f.nwatch = 1; f.watch[0] = (uptr)&g.f[k]; set_status(g.cur, BLOCK); resched();
  }
  g.f[g.cur].hist = h2(g.f[g.cur].hist, 0x1011);
  mark_event();
  return 0;
}
EXP int pthread_detach(pthread_t t) { if (!modelled()) return real<int>("pthread_detach", t); return 0; }
EXP int pthread_setaffinity_np(pthread_t, size_t, const cpu_set_t *) { return 0; }
EXP int sched_setaffinity(pid_t, size_t, const cpu_set_t *) { return 0; }

// ================================================================ driver-side API
namespace {
// sequential exploration: the answers given while one letter is applied; a path element is the letter (low byte) and up to seven answers
struct SeqEnv { bool on = false; int n = 0, at = 0; u8 chosen[7], en[7]; } seq_env;
int env_choose(int n) {
  if (n <= 1) return 0;
  if (seq_env.on) {
    SeqEnv &e = seq_env;
    if (n > 255) failf("too many answers to choose from");
    if (e.at == e.n) { if (e.n == 7) failf("too many choices in one letter"); e.chosen[e.n] = 0; e.n++; }
    e.en[e.at] = n;
    if (e.chosen[e.at] >= n) failf("NONDETERMINISM: environment choice diverged");
    return e.chosen[e.at++];
  }
  u32 idx = g.nchoice++;
  if (idx < g.nnodes) {
    Node &nd = g.nodes[idx];
    if (!nd.isenv || nd.en != n) failf("NONDETERMINISM: environment choice diverged");
    if (g.conc) g.f[g.cur].hist = h2(g.f[g.cur].hist, nd.chosen + 0xE40);
    return nd.chosen;
  }
  if (g.nnodes >= MAXNODES) failf("too many choice points");
  g.nodes[g.nnodes++] = Node{(u8)n, 0, 1, 0, (u8)g.cost, 1, (u8)g.cur, 0, 0};
  if (g.conc) g.f[g.cur].hist = h2(g.f[g.cur].hist, 0xE40);
  return 0;
}
}
namespace mc {
int self() { return g.cur; }
bool in_conc() { return g.conc; }
long live_blocks() { long n = 0; for (int i = 0; i < NF; i++) { ArenaHdr *A = (ArenaHdr *)arena_base(i); n += A->nalloc - A->nfree; } return n; }
void tag_block(void *p, int tag) { ((BlkHdr *)((uptr)p - 16))->magic = MAGIC ^ ((u64)tag << 8); }
void free_tagged(int tag) {
  for (int i = 0; i < NF; i++)
    for (uptr p = arena_base(i) + 4096; p < ((ArenaHdr *)arena_base(i))->bump; p += 16)
      if (((BlkHdr *)p)->magic == (MAGIC ^ ((u64)tag << 8))) arena_free((void *)(p + 16));
}
int env_choice(int n) { if (g.cur < 0) return 0; flush_pending(); return env_choose(n); }
void fail(const char *fmt, ...) {
  bool on = g.on; g.on = false; bool tg = g.target; g.target = false;
  va_list ap; va_start(ap, fmt); vfailf(fmt, ap); va_end(ap);
  g.on = on; g.target = tg;
  if (g.cur >= 0) to_host(R_FAIL);
}
int op_begin(int op, long a, long b, long c) {
  if (!g.conc) return -1;
  flush_pending();
  Fiber &f = g.f[g.cur];
  if (f.nops >= MAXOPS) failf("too many ops");
  int h = g.cur * MAXOPS + f.nops;
  OpSlot &o = ops[h];
  o.op = op; o.a = a; o.b = b; o.c = c; o.r = 0; o.nd = 0; o.invoked = false; o.done = false; o.before = 0;
  f.curop = f.nops++;
  f.ops_ev = 0;
  return h;
}
void op_data(int h, const long *p, int n) {
  if (h < 0) return;
  OpSlot &o = ops[h]; if (n > MAXDATA) n = MAXDATA; o.nd = n; memcpy(o.d, p, n * sizeof(long));
}
void op_end(int h, long r) {
  if (h < 0) return;
  flush_pending();
  OpSlot &o = ops[h];
  Fiber &f = g.f[g.cur];
  if (!o.invoked) { o.invoked = true; o.before = g.completed; g.histhash ^= mixw(h, h2(fold(o.before), 0x111)); }
  o.r = r; o.done = true;
  u64 x = h2(0x222, r);
  for (int i = 0; i < o.nd; i++) x = h2(x, o.d[i]);
  g.histhash ^= mixw(h + 1000, x);
  g.completed |= (mc::opset)1 << h;
  f.curop = -1; f.ops_ev = 0; f.rn = 0;
  f.hist = h2(f.hist, x);
}
void fin(long v) { if (nfins < 65536) fins[nfins++] = v; }
std::string Config::describe(const OpRec &o) {
  char b[256]; snprintf(b, sizeof b, "T%d op%d(%ld,%ld,%ld)=%ld", o.tid, o.op, o.a, o.b, o.c, o.r);
  std::string s = b;
  if (!o.data.empty()) { s += " ["; for (size_t i = 0; i < o.data.size(); i++) { if (i) s += ","; s += std::to_string(o.data[i]); } s += "]"; }
  return s;
}
}  // namespace mc

// ================================================================ snapshot
namespace {
struct Snap {
  u8 *exe; u64 exe_n;
  u8 *tls[NF];
  u64 bump[NF]; u64 nalloc[NF];
  u8 *arena[NF];
  u64 len[NF];
  void *keys[NF][64];
  bool cow; int fd;
  u64 vclock;
  int nkeys;
} snap;
u64 tls_off, tls_sz;   // exe TLS block = [fs - tls_off, +tls_sz)

void snapshot() {
  snapped = true;
  snap.exe_n = g.exe_hi - g.exe_lo;
  snap.exe = (u8 *)map_any(snap.exe_n);
  memcpy(snap.exe, (void *)g.exe_lo, snap.exe_n);
  for (int i = 0; i < NF; i++) {
    snap.tls[i] = (u8 *)map_any(tls_sz + 8);
    memcpy(snap.tls[i], (void *)(g.f[i].fs - tls_off), tls_sz);
    ArenaHdr *A = (ArenaHdr *)arena_base(i);
    snap.bump[i] = A->bump;
    snap.len[i] = A->bump - arena_base(i);
    memcpy(snap.keys[i], g.f[i].keys, sizeof snap.keys[i]);
  }
  snap.vclock = g.vclock; snap.nkeys = g.nkeys;
  snap.cow = snap.len[0] > (768 << 10);
  for (int i = 0; i < NF; i++) {
    if (i == 0 && snap.cow) {
      u64 n = (snap.len[0] + 4095) & ~4095ull;
      snap.fd = memfd_create("snap", 0);
      if (ftruncate(snap.fd, n) != 0) _exit(3);
      u8 *p = (u8 *)real_mmap(0, n, PROT_READ | PROT_WRITE, MAP_SHARED, snap.fd, 0);
      memcpy(p, (void *)BASE, n);
      real_munmap(p, n);
      void *q = real_mmap((void *)BASE, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, snap.fd, 0);
      if (q != (void *)BASE) _exit(3);
    } else {
      snap.arena[i] = (u8 *)map_any(snap.len[i] + 4096);
      memcpy(snap.arena[i], (void *)arena_base(i), snap.len[i]);
    }
  }
}
int (*real_madvise)(void *, size_t, int);
void restore() {
  // shadow: undo frees of snapshot objects, clear what was allocated since
  for (u32 k = nflog; k-- > 0;) {
    int ai = arena_of(flog[k].p);
    if (flog[k].p < snap.bump[ai]) shadow_set(flog[k].p, flog[k].sz, true);
  }
  nflog = 0;
  for (int i = 0; i < NF; i++) {
    ArenaHdr *A = (ArenaHdr *)arena_base(i);
    if (A->bump > snap.bump[i]) memset(shadow_of(snap.bump[i]), 0, ((A->bump - snap.bump[i]) >> 3) + 1);
  }
  memcpy((void *)g.exe_lo, snap.exe, snap.exe_n);
  for (int i = 0; i < NF; i++) {
    memcpy((void *)(g.f[i].fs - tls_off), snap.tls[i], tls_sz);
    if (i == 0 && snap.cow) { real_madvise((void *)BASE, (snap.len[0] + 4095) & ~4095ull, MADV_DONTNEED); ((ArenaHdr *)BASE)->bump = snap.bump[0]; }
    else if (i == 0 || ((ArenaHdr *)arena_base(i))->bump != snap.bump[i] || snap.len[i] > sizeof(ArenaHdr) + 64) memcpy((void *)arena_base(i), snap.arena[i], snap.len[i]);
    memcpy(g.f[i].keys, snap.keys[i], sizeof snap.keys[i]);
  }
  g.vclock = snap.vclock; g.nkeys = snap.nkeys;
}

// ================================================================ process-level set-up
void *parked(void *arg) {
  *(volatile u64 *)arg = __builtin_ia32_rdfsbase64();
  for (;;) pause();
}
int phdr_cb(struct dl_phdr_info *info, size_t, void *) {
  // first entry is the executable
  uptr lo = ~0ull, hi = 0, rlo = 0, rhi = 0;
  for (int i = 0; i < info->dlpi_phnum; i++) {
    const ElfW(Phdr) &p = info->dlpi_phdr[i];
    if (p.p_type == PT_LOAD && (p.p_flags & PF_W)) { lo = std::min(lo, (uptr)(info->dlpi_addr + p.p_vaddr)); hi = std::max(hi, (uptr)(info->dlpi_addr + p.p_vaddr + p.p_memsz)); }
    if (p.p_type == PT_GNU_RELRO) { rlo = info->dlpi_addr + p.p_vaddr; rhi = (rlo + p.p_memsz) & ~4095ull; }
    if (p.p_type == PT_TLS) { tls_sz = p.p_memsz; tls_off = (p.p_memsz + p.p_align - 1) & ~(p.p_align - 1); }
  }
  if (rhi > lo && rlo <= lo) lo = rhi;
  g.exe_lo = (lo + 7) & ~7ull; g.exe_hi = (hi + 7) & ~7ull;
  return 1;
}

char altstk[65536];
void on_signal(int s, siginfo_t *si, void *uc) {
  if (g.cur >= 0) {
    u64 pc = ((ucontext_t *)uc)->uc_mcontext.gregs[REG_RIP];
    sigset_t m; sigemptyset(&m); sigprocmask(SIG_SETMASK, &m, nullptr);
    const char *n = s == SIGSEGV ? "SIGSEGV" : s == SIGBUS ? "SIGBUS" : s == SIGFPE ? "SIGFPE" : s == SIGILL ? "SIGILL" : s == SIGABRT ? "SIGABRT (abort or failed assertion)" : s == SIGALRM ? "HANG: no progress for 20 s" : "signal";
    failf("CRASH: %s at pc %#llx address %p in thread %d", n, (unsigned long long)pc, s == SIGSEGV ? si->si_addr : nullptr, g.cur);
  }
  signal(s, SIG_DFL);
  raise(s);
}
volatile u64 tick_execs; volatile int tick_n;
void on_tick(int) {}
void on_alarm(int s, siginfo_t *si, void *uc) {
  // fires every 10 s of CPU time; same execution twice in a row inside target code = hang
  if (g.cur >= 0 && tick_execs == g.execs && g.on) {
    if (++tick_n >= 2) { tick_n = 0; on_signal(SIGALRM, si, uc); }
  } else { tick_n = 0; tick_execs = g.execs; }
}
}  // namespace
EXP void abort() {
  if (g.cur >= 0) failf("CRASH: abort() called by thread %d", g.cur);
  signal(SIGABRT, SIG_DFL); raise(SIGABRT); _exit(134);
}
EXP void __assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
  const char *b = strrchr(f, '/');
  if (g.cur >= 0) failf("CRASH: assertion `%s' failed at %s:%u", e, b ? b + 1 : f, l);
  fprintf(stderr, "assertion %s failed %s:%u\n", e, f, l); abort();
}
EXP void exit(int c) {
  if (g.cur >= 0) failf("CRASH: exit(%d) called by thread %d", c, g.cur);
  fflush(stdout); fflush(stderr); _exit(c);
}

namespace {
void init_process() {
  g.target = false;
  g.cur = -1;
  real_madvise = (decltype(real_madvise))dlsym(RTLD_NEXT, "madvise");
  static char ob[1 << 16], eb[1 << 12];
  setvbuf(stdout, ob, _IOLBF, sizeof ob); setvbuf(stderr, eb, _IOLBF, sizeof eb);
  dl_iterate_phdr(phdr_cb, nullptr);
  g.host_fs = __builtin_ia32_rdfsbase64();
  for (int i = 0; i < NF; i++) {
    Fiber &f = g.f[i];
    f.stk_lo = STK + (u64)i * (STKSZ + 65536) + 65536; f.stk_hi = f.stk_lo + STKSZ;
    mprotect((void *)(f.stk_lo - 65536), 65536, PROT_NONE);
    pthread_attr_t at; pthread_attr_init(&at);
    pthread_attr_setstack(&at, (void *)(TLSR + i * TLSSZ), TLSSZ);
    pthread_t t; volatile u64 fs = 0;
    int (*pc)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *) = (decltype(pc))dlsym(RTLD_NEXT, "pthread_create");
    if (pc(&t, &at, parked, (void *)&fs)) { fprintf(stderr, "mcrt: pthread_create failed\n"); _exit(3); }
    while (!fs) { struct timespec ts = {0, 100000}; clock_nanosleep(CLOCK_REALTIME, 0, &ts, nullptr); }
    f.fs = fs;
    int id = i;
    spawn_fn[i] = new std::function<void()>([id] { spawn_arg[id].fn(spawn_arg[id].arg); });
  }
  stack_t ss = {}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
}
void arm_signals() {
  stack_t ss = {}; ss.ss_sp = altstk; ss.ss_size = sizeof altstk; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT}) sigaction(s, &sa, nullptr);
  sa.sa_sigaction = on_alarm; sigaction(SIGPROF, &sa, nullptr);
  struct itimerval it = {{10, 0}, {10, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
}

// ================================================================ concurrent exploration
std::function<void()> *body_fn[NF];
void reset_exec(int nthreads) {
  restore();
  g.spur = 0;
  g.failed = false; g.nchoice = 0; g.cost = 0; g.nev = 0; g.hookn = 0; g.memhash = 0; g.histhash = 0; g.completed = 0;
  g.ready = 0; g.nfib = nthreads + 1; g.desp = 0; g.despmode = false; g.npend = 0; g.nuw = 0; g.ntr = 0; nfins = 0; g.grew = false;
  for (int i = 0; i < NF; i++) { g.f[i].st = UNUSED; g.f[i].rn = 0; g.f[i].phase = 0; g.f[i].spins = 0; g.f[i].loc = 0; g.f[i].ops_ev = 0; g.f[i].curop = -1; g.f[i].nops = 0; }
  for (int i = 0; i < NF * mc::MAXOPS; i++) ops[i].done = ops[i].invoked = false;
}
Reason run_exec(mc::Config *c) {
  g.execs++;
  reset_exec(c->nthreads);
  g.spur = c->spurious;
  for (int t = 1; t <= c->nthreads; t++) { prep_fiber(t, body_fn[t]); g.f[t].hist = h2(0x5eed, t); set_status(t, READY); }
  g.conc = true; g.on = true; g.target = true;
  // first choice: which thread starts
  u8 en = g.ready;
  g.cur = 1;
  // choose() may leave to the host through to_host(), so take the initial decision here
  int first;
  {
    u32 idx = g.nchoice++;
    if (c->nthreads == 1) { first = 1; g.nchoice--; }
    else if (idx < g.nnodes) first = g.nodes[idx].chosen;
    else { g.nodes[g.nnodes++] = Node{en, 1, 2, 0, 0, 0, 1, 0, 0}; first = 1; }
  }
  g.cur = first;
  mc_switch(&g.host_sp, g.f[first].sp, g.f[first].fs);
  g.conc = false; g.on = false; g.target = false;
  Reason r = g.reason;
  if (r == R_DONE) {
    for (int t = 1; t <= c->nthreads; t++) { r = run_on(t, [&] { c->thread_fini(t); }); if (r == R_FAIL) return r; }
    r = run_on(0, [&] { c->final_phase(); });
    if (r == R_RETURN) r = R_DONE;
  }
  return r;
}
bool backtrack() {
  while (g.nnodes) {
    Node &n = g.nodes[g.nnodes - 1];
    if (n.isenv) {
      if (n.chosen + 1 < n.en) { n.chosen++; return true; }
    } else {
      u8 rest = n.en & ~n.tried;
      while (rest) {
        int a = __builtin_ctz(rest); rest &= rest - 1;
        int cost = n.cost + ((n.curen && a != n.cur) ? 1 : 0);
        if (g.bound != 255 && cost > g.bound) continue;
        n.tried |= 1 << a; n.chosen = a;
        return true;
      }
    }
    g.nnodes--;
  }
  return false;
}
void collect(mc::Config *c, mc::Hist &h) {
  for (int t = 1; t < NF; t++)
    for (int i = 0; i < g.f[t].nops; i++) {
      OpSlot &o = ops[t * mc::MAXOPS + i];
      mc::OpRec r; r.tid = t; r.idx = i; r.op = o.op; r.a = o.a; r.b = o.b; r.c = o.c; r.r = o.r; r.done = o.done; r.invoked = o.invoked; r.before = o.before;
      r.data.assign(o.d, o.d + o.nd);
      h.ops.push_back(r);
    }
  h.fin.assign(fins, fins + nfins);
}
std::string hist_text(mc::Config *c, const mc::Hist &h) {
  std::string s;
  for (auto &o : h.ops) { s += "  " + c->describe(o) + "  after:{"; for (auto &p : h.ops) if (o.before >> p.id() & 1) s += " T" + std::to_string(p.tid) + "." + std::to_string(p.idx); s += " }\n"; }
  s += "  final:"; for (long v : h.fin) s += " " + std::to_string(v); s += "\n";
  return s;
}

struct Result {
  u64 states, transitions, execs, outcomes, maxev, choices;
  int status;           // 0 ok 1 violation 2 error 3 capped 4 = known only
  double secs;
  u64 known;
  u64 shared_words;
  int closed;           // breadth-first exploration that reached every state
  char msg[6000];
  char sample[600];
  char knownmsg[1000];
};
struct Known { std::string prop, key; };
std::vector<Known> known_findings;
std::string g_property, g_replay_dir;
bool is_known(const std::string &cfg, const std::string &msg, Result *R) {
  for (auto &k : known_findings) {
    if (k.prop != g_property) continue;
    std::string s = cfg + ": " + msg;
    if (s.find(k.key) != std::string::npos) { R->known++; snprintf(R->knownmsg, sizeof R->knownmsg, "%s", k.key.c_str()); return true; }
  }
  return false;
}
double now() { struct timespec t; syscall(228, CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

std::string first_line(const std::string &s) { return s.substr(0, s.find('\n')); }
std::string safe_name(std::string s) { for (auto &c : s) if (!isalnum((u8)c) && c != '-' && c != '_' && c != '.') c = '_'; return s.substr(0, 120); }

std::string evaluate(mc::Config *c, Reason r, u64 *outcome, std::unordered_map<u64, std::string> *memo, std::string *hist_out) {
  if (r == R_FAIL) {
    if (hist_out) { mc::Hist h; collect(c, h); *hist_out = hist_text(c, h); }
    return g.msg;
  }
  mc::Hist h; collect(c, h);
  u64 x = 1;
  for (auto &o : h.ops) { x = h2(x, o.r); for (long v : o.data) x = h2(x, v); }
  for (long v : h.fin) x = h2(x, v);
  if (outcome) *outcome = x;
  for (auto &o : h.ops) x = h2(x, fold(o.before));
  if (memo) { auto it = memo->find(x); if (it != memo->end()) { if (hist_out) *hist_out = hist_text(c, h); return it->second; } }
  std::string why;
  std::string res;
  if (!c->check(h, why)) res = why;
  else if (g.failed) res = g.msg;
  if (memo) (*memo)[x] = res;
  if (hist_out) *hist_out = hist_text(c, h);
  return res;
}
std::string symbolize(const std::vector<u64> &pcs, std::map<u64, std::string> &out) {
  if (pcs.empty()) return "";
  char exe[512]; ssize_t n = readlink("/proc/self/exe", exe, sizeof exe - 1); if (n < 0) return ""; exe[n] = 0;
  uptr base = 0;
  dl_iterate_phdr([](struct dl_phdr_info *i, size_t, void *p) { *(uptr *)p = i->dlpi_addr; return 1; }, &base);
  std::string cmd = std::string("addr2line -C -f -p -s -e ") + exe;
  for (u64 p : pcs) { char b[32]; snprintf(b, sizeof b, " 0x%llx", (unsigned long long)(p - base - 1)); cmd += b; }
  cmd += " 2>/dev/null";
  FILE *f = popen(cmd.c_str(), "r");
  if (!f) return "";
  char line[1024]; size_t i = 0;
  while (i < pcs.size() && fgets(line, sizeof line, f)) { std::string s = line; while (!s.empty() && s.back() == '\n') s.pop_back(); if (s.size() > 160) s = s.substr(0, 60) + "..." + s.substr(s.size() - 90); out[pcs[i++]] = s; }
  pclose(f);
  return "";
}
std::string trace_text() {
  std::set<u64> ps; u64 lim = std::min<u64>(g.ntr, 3000);
  for (u64 i = 0; i < lim; i++) if (g.tr[i].pc) ps.insert(g.tr[i].pc);
  std::map<u64, std::string> sym; std::vector<u64> v(ps.begin(), ps.end()); symbolize(v, sym);
  std::string s; static const char *K[] = {"read", "write", "rmw(no change)", "rmw", "free", "lock-op"};
  for (u64 i = 0; i < lim; i++) {
    Trace &t = g.tr[i]; char b[512];
    snprintf(b, sizeof b, "  T%d %-6s %#llx/%d val=%#llx  %s\n", t.tid, K[t.kind], (unsigned long long)t.a, t.sz, (unsigned long long)t.v, t.pc ? sym[t.pc].c_str() : "");
    s += b;
  }
  return s;
}

void save_choices(std::ostream &o) {
  for (u32 i = 0; i < g.nnodes; i++) o << (int)g.nodes[i].chosen << (g.nodes[i].isenv ? "e" : "") << " ";
}

bool setup_conc(mc::Config *c, std::string &err) {
  g.fill = c->fill;
  if (run_on(0, [&] { c->setup(); }) == R_FAIL) { err = g.msg; return false; }
  for (int t = 1; t <= c->nthreads; t++) if (run_on(t, [&] { c->thread_init(t); }) == R_FAIL) { err = g.msg; return false; }
  snapshot();
  for (int t = 1; t <= c->nthreads; t++) { int id = t; body_fn[t] = new std::function<void()>([c, id] { c->body(id); }); }
  return true;
}

// re-run the current schedule (nodes as recorded) with tracing; returns violation message or ""
std::string rerun(mc::Config *c, std::string *hist, bool trace) {
  u32 n = g.nnodes;
  bool uc = g.use_cache; g.use_cache = false; g.tracing = trace;
  Reason r = run_exec(c);
  g.use_cache = uc; g.tracing = false;
  std::string m = evaluate(c, r, nullptr, nullptr, hist);
  g.nnodes = std::max(n, g.nnodes);
  return m;
}

void explore(mc::Config *c, Result *R, double tlimit) {
  double t0 = now();
  arm_signals();
  std::string err;
  if (!setup_conc(c, err)) {
    if (is_known(c->name, err, R)) { R->status = 4; return; }
    R->status = 1; snprintf(R->msg, sizeof R->msg, "%s\n(in the sequential set-up phase)", err.c_str()); return;
  }
  g.bound = c->bound;
  std::unordered_set<u64> outcomes;
  std::unordered_map<u64, std::string> memo;
  int restarts = 0;
  bool capped = false;
  g.use_cache = true;
restart:
  cache.clear(); g.nnodes = 0; outcomes.clear(); g.transitions = 0; R->execs = 0; R->choices = 0; g.nondet = false;
  for (;;) {
    Reason r = run_exec(c);
    R->execs++;
    R->maxev = std::max(R->maxev, g.nev);
    if (r == R_FAIL || r == R_DONE) {
      u64 oc = 0; std::string hist;
      std::string m = (r == R_FAIL && g.grew && !strncmp(g.msg, "NONDET", 6)) ? "" : evaluate(c, r, &oc, &memo, nullptr);
      if (m.empty() && r == R_DONE) {
        if (outcomes.insert(oc).second && outcomes.size() <= 1) { mc::Hist h; collect(c, h); snprintf(R->sample, sizeof R->sample, "%s", hist_text(c, h).c_str()); }
      }
      if (!m.empty() && !is_known(c->name, m, R)) {
        // replay twice before believing it
        bool nd0 = g.grew;
        std::string h1, h2s; u32 keep = g.nnodes;
        std::vector<Node> save(g.nodes, g.nodes + keep);
        std::string m1 = rerun(c, &h1, false);
        std::copy(save.begin(), save.end(), g.nodes); g.nnodes = keep;
        bool nd1 = g.grew;
        std::string m2 = rerun(c, &h2s, true);
        std::copy(save.begin(), save.end(), g.nodes); g.nnodes = keep;
        if (first_line(m1) != first_line(m) || m1 != m2 || h1 != h2s) {
          if (nd0 || nd1 || g.grew) { restarts++; goto restart; }   // the set of scheduling points grew: positions moved
          R->status = 2; snprintf(R->msg, sizeof R->msg, "violation did not replay identically:\n %s\n %s\n %s", m.c_str(), m1.c_str(), m2.c_str()); return;
        }
        R->status = 1;
        std::string fn = g_replay_dir + "/" + g_property + "-" + safe_name(c->name) + ".replay";
        std::ofstream o(fn);
        o << "config " << c->name << "\nkind conc\nchoices "; save_choices(o);
        o << "\n\nviolation: " << m << "\nhistory:\n" << h2s << "\nschedule (shared-memory events):\n" << trace_text();
        snprintf(R->msg, sizeof R->msg, "%s\n%s\nREPLAY=%s", m.c_str(), h2s.c_str(), fn.c_str());
        goto out;
      }
    }
    if (g.nondet && !g.grew) { R->status = 2; snprintf(R->msg, sizeof R->msg, "%s", g.msg); return; }
    if (g.grew) { if (++restarts > 400) { R->status = 2; snprintf(R->msg, sizeof R->msg, "shared set does not converge"); return; } goto restart; }
    if (cache.n > c->max_states || (R->execs % 256 == 0 && now() - t0 > tlimit)) { capped = true; break; }
    if (!backtrack()) break;
  }
  R->status = capped ? 3 : (R->known ? 4 : 0);
  if (!R->status && outcomes.empty()) { R->status = 2; snprintf(R->msg, sizeof R->msg, "no execution was followed to its end"); }
out:
  R->states = cache.n + 1; R->transitions = g.transitions; R->outcomes = outcomes.size(); R->secs = now() - t0;
  for (u64 i = 0; i < 1; i++) {}
}

// ================================================================ sequential exploration
struct Level { u8 *exe; u8 *tls; u8 *ar; u8 *sh; u64 len; u64 cap; u64 vclock; int nkeys; void *keys[64]; };
std::vector<Level> levels;
void take(Level &L) {
  if (!L.exe) { L.exe = (u8 *)map_any(g.exe_hi - g.exe_lo); L.tls = (u8 *)map_any(tls_sz + 8); }
  memcpy(L.exe, (void *)g.exe_lo, g.exe_hi - g.exe_lo);
  memcpy(L.tls, (void *)(g.f[0].fs - tls_off), tls_sz);
  u64 len = ((ArenaHdr *)BASE)->bump - BASE;
  if (len > L.cap) { L.cap = len + len / 2 + 65536; L.ar = (u8 *)map_any(L.cap); L.sh = (u8 *)map_any(L.cap / 8 + 64); }
  memcpy(L.ar, (void *)BASE, len);
  memcpy(L.sh, (void *)SHADOW, len / 8 + 1);
  L.len = len; L.vclock = g.vclock; L.nkeys = g.nkeys; memcpy(L.keys, g.f[0].keys, sizeof L.keys);
}
void put(Level &L) {
  u64 cur = ((ArenaHdr *)BASE)->bump - BASE;
  memcpy((void *)g.exe_lo, L.exe, g.exe_hi - g.exe_lo);
  memcpy((void *)(g.f[0].fs - tls_off), L.tls, tls_sz);
  memcpy((void *)BASE, L.ar, L.len);
  memcpy((void *)SHADOW, L.sh, L.len / 8 + 1);
  if (cur > L.len) memset((u8 *)SHADOW + L.len / 8 + 1, 0, (cur - L.len) / 8 + 1);
  g.vclock = L.vclock; g.nkeys = L.nkeys; memcpy(g.f[0].keys, L.keys, sizeof L.keys);
}
u64 hash_bytes(const u8 *p, u64 n, u64 seed) {
  u64 a = seed, b = seed ^ 0x9e3779b97f4a7c15ull; u64 i = 0;
  for (; i + 16 <= n; i += 16) {
    u64 x, y; memcpy(&x, p + i, 8); memcpy(&y, p + i + 8, 8);
    u128 m = (u128)(x ^ a) * (0x9fb21c651e98df25ull ^ b); a = (u64)m ^ (u64)(m >> 64) ^ y; b += 0x632be59bd9b4e019ull ^ a; 
    a = (a << 29 | a >> 35) * 0xd6e8feb86659fd93ull;
  }
  for (; i < n; i++) a = h2(a, p[i]);
  return h2(a, b);
}
typedef long long PathEl;
std::vector<PathEl> seq_path;
void seq_env_load(PathEl x) { seq_env.at = 0; seq_env.n = 7; for (int i = 0; i < 7; i++) { seq_env.chosen[i] = (u64)x >> (8 + 8 * i); seq_env.en[i] = 0; } seq_env.on = true; }
PathEl seq_env_save(int l) { u64 x = l; for (int i = 0; i < seq_env.at; i++) x |= (u64)seq_env.chosen[i] << (8 + 8 * i); return (PathEl)x; }
bool seq_env_next() {      // the next combination of answers for the same letter
  for (seq_env.n = seq_env.at; seq_env.n; seq_env.n--) if (++seq_env.chosen[seq_env.n - 1] < seq_env.en[seq_env.n - 1]) return true;
  return false;
}
struct SeqCtx { mc::SeqConfig *c; Result *R; double t0, tlimit; std::unordered_set<u64> fps; bool stop; u64 leaves = 0; };

std::string seq_step(SeqCtx &S, int l) {      // with the answers in seq_env
  g.failed = false; g.hookn = 0; g.execs++;
  g.nnodes = 0; g.nchoice = 0;
  seq_env.at = 0; seq_env.on = true;
  Reason r = run_on(0, [&] { S.c->apply(l); if (S.c->final_each) S.c->audit(); });
  seq_env.on = false;
  S.R->transitions++;
  if (r == R_FAIL) return g.msg;
  return "";
}
std::string path_text(mc::SeqConfig *c) { std::string s; for (PathEl l : seq_path) { s += c->letter_name(l & 255); int k = 7; while (k && !(u8)((u64)l >> (8 * k))) k--; for (int i = 1; i <= k; i++) s += (i > 1 ? "," : "<") + std::to_string((int)(u8)((u64)l >> (8 * i))); if (k) s += ">"; s += "; "; } return s; }
u64 seq_hash(mc::SeqConfig *c) {
  u64 h;
  if (c->use_fingerprint()) { run_on(0, [&] { h = c->fingerprint(); }); }
  else { h = hash_bytes((u8 *)BASE, ((ArenaHdr *)BASE)->bump - BASE, 1); h = hash_bytes((u8 *)g.exe_lo, g.exe_hi - g.exe_lo, h); }
  return h;
}
void seq_violation(SeqCtx &S, const std::string &m, const std::string &full) {   // replay from the start state, twice
  std::vector<PathEl> path = seq_path; std::string m2[2];
  for (int k = 0; k < 2; k++) { put(levels[0]); for (PathEl x : path) { seq_env_load(x); m2[k] = seq_step(S, x & 255); if (!m2[k].empty()) break; } }
  S.stop = true;
  if (m2[0] != m || m2[1] != m) { S.R->status = 2; snprintf(S.R->msg, sizeof S.R->msg, "violation did not replay: %s / %s / %s", m.c_str(), m2[0].c_str(), m2[1].c_str()); return; }
  S.R->status = 1;
  std::string fn = g_replay_dir + "/" + g_property + "-" + safe_name(S.c->name) + ".replay";
  std::ofstream o(fn); o << "config " << S.c->name << "\nkind seq\nchoices "; for (PathEl x : path) o << x << " ";
  o << "\n\nviolation: " << full << "\n";
  snprintf(S.R->msg, sizeof S.R->msg, "%s\nREPLAY=%s", full.c_str(), fn.c_str());
}
void seq_dfs(SeqCtx &S, int d) {
  mc::SeqConfig *c = S.c;
  if ((int)levels.size() <= d + 1) levels.resize(d + 2);
  take(levels[d]);
  bool fresh = true;
  for (int l = 0; l < c->nletters && !S.stop; l++) {
    seq_env.n = 0; SeqEnv env;
    do {
      if (!fresh) put(levels[d]);
      fresh = false;
      std::string m = seq_step(S, l); env = seq_env;
      seq_path.push_back(seq_env_save(l));
      if (!m.empty()) {
        std::string full = m + "  [sequence: " + path_text(c) + "]";
        if (!is_known(c->name, full, S.R)) {
          seq_violation(S, m, full);
          return;
        }
        seq_path.pop_back();
      } else {
        bool expand = true;
        if (S.R->transitions % 1024 == 0 && now() - S.t0 > S.tlimit) { S.R->status = 3; S.stop = true; }
        if (c->dedupe) {
          expand = cache.insert(seq_hash(c), (u8)std::min(254, c->depth - d));
        } else S.R->states++;
        if (expand && d + 1 < c->depth) seq_dfs(S, d + 1); else S.leaves++;
        seq_path.pop_back();
        if (c->dedupe && cache.n > c->max_states) { S.R->status = 3; S.stop = true; }
      }
      seq_env = env;
    } while (!S.stop && seq_env_next());
  }
  put(levels[d]);
}
// breadth-first over distinct states: every state is reached by its shortest path; ends early when no new state appears
void seq_bfs(SeqCtx &S) {
  mc::SeqConfig *c = S.c;
  levels.resize(std::max<size_t>(levels.size(), 2));
  take(levels[0]);
  struct Node { u32 parent; u32 letter; };
  std::vector<Node> nodes{{0, 0}};
  S.fps.insert(seq_hash(c));
  size_t cur = 0, layer_end = 1; int d = 0;
  std::vector<int> path;
  for (; d < c->depth && cur < nodes.size() && !S.stop; d++) {
    for (; cur < layer_end && !S.stop; cur++) {
      path.clear();
      for (u32 x = cur; x; x = nodes[x].parent) path.push_back(nodes[x].letter);
      std::reverse(path.begin(), path.end());
      put(levels[0]);
      for (int l : path) { g.failed = false; g.hookn = 0; g.nnodes = 0; g.nchoice = 0; run_on(0, [&] { c->apply(l); }); }
      take(levels[1]);
      for (int l = 0; l < c->nletters && !S.stop; l++) {
        if (l) put(levels[1]);
        seq_path.assign(path.begin(), path.end()); seq_path.push_back(l);
        seq_env.n = 0;
        std::string m = seq_step(S, l);
        if (m.empty() && seq_env.at) m = "environment choices are not supported breadth-first";
        if (!m.empty()) {
          std::string full = m + "  [sequence: " + path_text(c) + "]";
          if (is_known(c->name, full, S.R)) continue;
          seq_violation(S, m, full);
          return;
        }
        if (S.R->transitions % 1024 == 0 && now() - S.t0 > S.tlimit) { S.R->status = 3; S.stop = true; }
        if (S.fps.insert(seq_hash(c)).second) nodes.push_back({(u32)cur, (u32)l}); else S.leaves++;
        if (nodes.size() > c->max_states) { S.R->status = 3; S.stop = true; }
      }
    }
    layer_end = nodes.size();
  }
  S.R->states = nodes.size();
  S.R->maxev = d;
  S.R->closed = cur == nodes.size();
  put(levels[0]);
}
void explore_seq(mc::SeqConfig *c, Result *R, double tlimit) {
  arm_signals();
  g.canonical = c->canonical_alloc; g.fill = c->fill;
  SeqCtx S; S.c = c; S.R = R; S.t0 = now(); S.tlimit = tlimit; S.stop = false;
  if (run_on(0, [&] { c->setup(); c->audit(); }) == R_FAIL) {
    std::string m = g.msg;
    if (is_known(c->name, m, R)) { R->status = 4; return; }
    R->status = 1; snprintf(R->msg, sizeof R->msg, "%s\n(in set-up)", m.c_str()); return;
  }
  cache.clear();
  if (c->bfs) seq_bfs(S); else seq_dfs(S, 0);
  if (c->bfs) {} else if (c->dedupe) R->states = cache.n + 1;
  R->execs = S.leaves; if (!c->bfs) R->states++;
  if (R->status == 0 && R->known) R->status = 4;
  R->secs = now() - S.t0;
}

std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c == '\n') o += "\\n"; else if (c < 32) o += ' '; else o += c; }
  return o;
}
}  // namespace

namespace mc {
int run_suite(int argc, char **argv, const std::function<Suite(const std::string &, const std::string &)> &make) {
  init_process();
  std::string prop, tier = "quick", evidence, replay, only, known; int jobs = 8; bool list = false, verbose = false; double tlimit = 0;
  g_replay_dir = ".";
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--tier") tier = nx(); else if (a == "--evidence") evidence = nx(); else if (a == "--replay") replay = nx();
    else if (a == "--only") only = nx(); else if (a == "--jobs") jobs = atoi(nx().c_str()); else if (a == "--list") list = true;
    else if (a == "--known") known = nx(); else if (a == "--replay-dir") g_replay_dir = nx(); else if (a == "-v") verbose = true;
    else if (a == "--property") prop = nx();
    else if (a == "--limit") tlimit = atof(nx().c_str());
  }
  Suite s = make(prop, tier);
  if (s.property.empty()) s.property = prop;
  g_property = s.property;
  if (tlimit == 0) tlimit = tier == "quick" ? 600 : 840;
  if (!known.empty()) {
    std::ifstream f(known); std::string line;
    while (std::getline(f, line)) {
      if (line.empty() || line[0] == '#' || line.compare(0, 6, "fixed:") == 0) continue;
      // finding: property=<id> key=<text>
      size_t p = line.find("property="), k = line.find("key=");
      if (p == std::string::npos || k == std::string::npos) continue;
      std::string pr = line.substr(p + 9, line.find(' ', p) - p - 9);
      known_findings.push_back({pr, line.substr(k + 4)});
    }
  }
  struct Item { Config *c; SeqConfig *q; std::string name; long w; };
  std::vector<Item> items;
  for (auto c : s.conc) items.push_back({c, nullptr, c->name, c->weight});
  for (auto q : s.seq) items.push_back({nullptr, q, q->name, q->weight});
  { std::set<std::string> names; for (auto &it : items) if (!names.insert(it.name).second) { fprintf(stderr, "duplicate config %s\n", it.name.c_str()); _exit(3); } }
  std::stable_sort(items.begin(), items.end(), [](const Item &a, const Item &b) { return a.w > b.w; });
  if (!only.empty()) { std::vector<Item> v; for (auto &it : items) if (it.name.find(only) != std::string::npos) v.push_back(it); items = v; }
  if (list) { for (auto &it : items) printf("%s\n", it.name.c_str()); fflush(stdout); _exit(0); }

  if (!replay.empty()) {
    std::ifstream f(replay); std::string line, cfg, kind; std::vector<std::string> ch;
    while (std::getline(f, line)) {
      if (line.compare(0, 7, "config ") == 0) cfg = line.substr(7);
      else if (line.compare(0, 5, "kind ") == 0) kind = line.substr(5);
      else if (line.compare(0, 8, "choices ") == 0) { std::istringstream is(line.substr(8)); std::string x; while (is >> x) ch.push_back(x); break; }
    }
    for (auto &it : items) if (it.name == cfg) {
      arm_signals();
      if (it.c) {
        std::string err; if (!setup_conc(it.c, err)) { printf("VIOLATED in set-up: %s\n", err.c_str()); fflush(stdout); _exit(1); }
        // the schedule is positions in the converged set of scheduling points: rebuild that set first
        Result R; memset(&R, 0, sizeof R);
        g.bound = it.c->bound; g.use_cache = true;
        printf("replaying %zu recorded decisions of %s\n", ch.size(), cfg.c_str());
        // converge tracking by exploring until the violation shows again
        explore(it.c, &R, 800);
        printf("status %d\n%s\n", R.status, R.msg); fflush(stdout); _exit(R.status == 1 ? 1 : 0);
      } else {
        g.canonical = it.q->canonical_alloc;
        run_on(0, [&] { it.q->setup(); it.q->audit(); });
        Result R; memset(&R, 0, sizeof R); SeqCtx S; S.c = it.q; S.R = &R;
        for (auto &x : ch) { PathEl v = atoll(x.c_str()); int l = v & 255; seq_env_load(v); std::string m = seq_step(S, l); seq_path = {v}; printf("%s -> %s\n", path_text(it.q).c_str(), m.empty() ? "ok" : m.c_str()); if (!m.empty()) { fflush(stdout); _exit(1); } }
      }
      fflush(stdout); _exit(0);
    }
    printf("no such config: %s\n", cfg.c_str()); fflush(stdout); _exit(2);
  }

  Result *res = (Result *)mmap(0, sizeof(Result) * (items.size() + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  std::vector<pid_t> pid(items.size(), 0);
  std::map<pid_t, size_t> who;
  double t0 = now();
  size_t next = 0, running = 0; bool stop = false; int rc = 0; size_t ran = 0;
  while ((next < items.size() && !stop) || running) {
    while (next < items.size() && !stop && (int)running < jobs) {
      fflush(stdout);
      pid_t p = fork();
      if (p == 0) {
        double lim = std::max(1.0, tlimit - (now() - t0));
        if (items[next].c) explore(items[next].c, &res[next], lim); else explore_seq(items[next].q, &res[next], lim);
        _exit(77);
      }
      who[p] = next; running++; next++;
    }
    int st; pid_t p = waitpid(-1, &st, 0);
    if (p < 0) break;
    auto w = who.find(p); if (w == who.end()) continue;
    size_t i = w->second; who.erase(w); running--; ran++;
    Result &R = res[i];
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 77)) { R.status = 2; snprintf(R.msg, sizeof R.msg, "explorer process died (wait status %#x)", st); }
    if (verbose) printf("%-50s status %d execs %llu states %llu trans %llu outcomes %llu maxev %llu %.2fs known %llu%s\n", items[i].name.c_str(), R.status, (unsigned long long)R.execs, (unsigned long long)R.states, (unsigned long long)R.transitions, (unsigned long long)R.outcomes, (unsigned long long)R.maxev, R.secs, (unsigned long long)R.known, R.closed ? " closed" : "");
    if (R.status == 1) {
      std::string rp = "none"; const char *q = strstr(R.msg, "REPLAY="); if (q) rp = q + 7;
      if (rp == "none") { rp = g_replay_dir + "/" + g_property + "-" + safe_name(items[i].name) + ".replay"; std::ofstream o(rp); o << "config " << items[i].name << "\nkind setup\nviolation: " << R.msg << "\n"; }
      printf("config %s:\n%s\nVIOLATION property=%s replay=%s\n", items[i].name.c_str(), R.msg, g_property.c_str(), rp.c_str());
      rc = 1; stop = true;
      for (auto &x : who) kill(x.first, SIGKILL);
    } else if (R.status == 2) {
      printf("ERROR config %s: %s\n", items[i].name.c_str(), R.msg);
      if (!rc) rc = 2;
    }
  }
  u64 st = 0, tr = 0, ex = 0, oc = 0, capped = 0, nontriv = 0, seqn = 0, concn = 0, closed = 0, bfsn = 0, diam = 0; double secs = now() - t0; u64 maxev = 0;
  std::set<std::string> kf; std::string samples, capnames; int ns = 0;
  for (size_t i = 0; i < items.size(); i++) {
    Result &R = res[i]; st += R.states; tr += R.transitions; ex += R.execs; oc += R.outcomes; capped += R.status == 3; if (R.outcomes > 1) nontriv++;
    (items[i].c ? concn : seqn)++;
    if (items[i].q && items[i].q->bfs) { bfsn++; closed += R.closed; diam = std::max(diam, R.maxev); } else maxev = std::max(maxev, R.maxev);
    if (R.status == 3) capnames += items[i].name + "; ";
    if (R.known) kf.insert(R.knownmsg);
    if (ns < 4 && (R.sample[0] || items[i].q)) { samples += std::string(ns ? "," : "") + "\"" + jesc(items[i].name + (R.sample[0] ? std::string(": ") + R.sample : std::string(": exhausted, ") + std::to_string(R.transitions) + " operations")) + "\""; ns++; }
  }
  for (auto &k : kf) printf("KNOWN-FINDING: property=%s %s\n", g_property.c_str(), k.c_str());
  printf("%s %s: configs %zu (concurrent %llu, sequential %llu), executions %llu, states %llu, transitions %llu, distinct outcomes %llu, configs with >1 outcome %llu, capped %llu, closed %llu/%llu, %.1fs\n", g_property.c_str(), tier.c_str(), ran, (unsigned long long)concn, (unsigned long long)seqn, (unsigned long long)ex, (unsigned long long)st, (unsigned long long)tr, (unsigned long long)oc, (unsigned long long)nontriv, (unsigned long long)capped, (unsigned long long)closed, (unsigned long long)bfsn, secs);
  if (!evidence.empty()) {
    std::ofstream o(evidence);
    const char *seed = getenv("VERIF_SEED");
    o << "{\n \"property\": \"" << g_property << "\",\n \"tier\": \"" << tier << "\",\n \"seed\": " << (seed ? atoi(seed) : 1) << ",\n \"level\": \"model_checking\",\n \"wall_s\": " << secs << ",\n";
    o << " \"coverage\": {\n  \"states\": " << st << ",\n  \"transitions\": " << tr << ",\n  \"traces_validated_against_impl\": " << ex << ",\n";
    o << "  \"rule\": \"" << jesc(s.rule) << "\",\n";
    o << "  \"configs\": " << items.size() << ",\n  \"concurrent_configs\": " << concn << ",\n  \"sequential_configs\": " << seqn << ",\n  \"configs_with_several_outcomes\": " << nontriv << ",\n  \"distinct_outcomes\": " << oc << ",\n";
    o << "  \"breadth_first_configs\": " << bfsn << ",\n  \"breadth_first_configs_closed\": " << closed << ",\n  \"largest_diameter\": " << diam << ",\n  \"max_events_in_one_execution\": " << maxev << ",\n  \"capped_configs\": " << capped << ",\n  \"capped\": \"" << jesc(capnames) << "\",\n  \"known_findings\": " << kf.size() << ",\n";
    o << "  \"note\": \"the states are states of the real compiled code (no separate model): every execution counted is an execution of the implementation\",\n";
    o << "  \"samples\": [" << (samples.empty() ? "\"none\"" : samples) << "]\n }\n}\n";
  }
  fflush(stdout);
  _exit(rc);
}
}  // namespace mc
