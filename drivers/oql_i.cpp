#include "optiql_lock.h"
#include "OptiQL/latches/MCS.h"
#include "OptiQL/latches/STDRW.h"
using namespace mcs;
namespace {
namespace m {
MCSLock *L;
void make() { L = new MCSLock(); }
void tinit() {}
void write(void (*f)(void *), void *a) { MCSQNode q; L->lock(&q); f(a); L->unlock(&q); }
bool try_write(void (*f)(void *), void *a) { MCSQNode q; if (!L->try_lock(&q)) return false; f(a); L->unlock(&q); return true; }
}
namespace s {
std_lock::STDRWLock *L;
void make() { L = new std_lock::STDRWLock(); }
void write(void (*f)(void *), void *a) { L->lock(); f(a); L->unlock(); }
void read(void (*f)(void *), void *a) { L->read_lock(); f(a); L->read_unlock(); }
}
}
extern const LockOps ops_mcs, ops_std;
const LockOps ops_mcs = {"mcs", false, false, m::make, m::tinit, m::write, nullptr, nullptr, nullptr, nullptr, nullptr, m::try_write};
const LockOps ops_std = {"std-rw", true, false, s::make, m::tinit, s::write, s::read, nullptr, nullptr, nullptr, nullptr, nullptr};
