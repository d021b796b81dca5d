#include <stdlib.h>
#include <iostream>
#include <new>
#include "optiql_lock.h"
#define LOG(x) std::cerr
#include "OptiQL/latches/MCSRW.h"
using namespace mcsrw;
namespace {
MCSRWLock *L;
void make() { L = new MCSRWLock(); }
void tinit() {}
#ifdef QUEUED
void write(void (*f)(void *), void *a) { MCSRWQNode q; L->lock(&q); f(a); L->unlock(&q); }
void read(void (*f)(void *), void *a) { MCSRWQNode q; L->read_lock(&q); f(a); L->read_unlock(&q); }
#else
void write(void (*f)(void *), void *a) { L->lock(); f(a); L->unlock(); }
void read(void (*f)(void *), void *a) { L->read_lock(); f(a); L->read_unlock(); }
#endif
}
#define MCSRW_TABLE(n) {n, true, false, make, tinit, write, read, nullptr, nullptr, nullptr, nullptr, nullptr}
extern const LockOps ops_mcsrw_queue, ops_mcsrw_writer, ops_mcsrw_reader;
