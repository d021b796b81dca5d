#include <numa.h>
#include <stdlib.h>
#include <iostream>
#include <new>
#include "optiql_lock.h"
#include "OptiQL/latches/OMCSImpl.h"
#include "OptiQL/latches/OMCSOffset.h"
using namespace omcs_impl;
namespace {
OMCSLock *L;
#ifdef OMCS_OFFSET
#define CTX(i) OMCSQNode &q = *offset::get_qnode(i)
void make() {
  void *p = nullptr;
  if (posix_memalign(&p, 4096, sizeof(OMCSQNode) * 64)) abort();
  base_qnode = (OMCSQNode *)p;
  for (int i = 0; i < 64; i++) new (base_qnode + i) OMCSQNode;
  L = new OMCSLock();
}
void tinit() { offset::reset_tls_qnodes(); }
#else
#define CTX(i) OMCSQNode q
void make() { L = new OMCSLock(); }
void tinit() {}
#endif
#ifdef PLAIN
void write(void (*f)(void *), void *a) { uint64_t v = L->lock(); f(a); L->unlock(v); }
bool upgrade(uint64_t v, void (*f)(void *), void *a) { if (!L->try_lock(v)) return false; f(a); L->unlock(); return true; }
#else
void write(void (*f)(void *), void *a) { CTX(0); L->lock(&q); f(a); L->unlock(&q); }
bool upgrade(uint64_t v, void (*f)(void *), void *a) { CTX(1); if (!L->try_lock(&q, v)) return false; f(a); L->unlock(&q); return true; }
#endif
bool begin(uint64_t &v) { bool r = false; v = L->try_begin_read(r); return !r; }
uint64_t begin_wait() { return L->begin_read(); }
bool validate(uint64_t v) { return L->validate_read(v); }
}
#define OMCS_TABLE(n) {n, false, true, make, tinit, write, nullptr, begin, begin_wait, validate, upgrade, nullptr}
extern const LockOps ops_omcs_queue, ops_omcs_plain, ops_omcs_nofaa, ops_omcs_offset, ops_omcs_opread;
