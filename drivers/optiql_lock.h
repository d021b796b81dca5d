// One lock type of OptiQL/latches behind a table of functions (each variant is compiled in its own translation unit).
#pragma once
#include <stdint.h>
struct LockOps {
  const char *name;
  bool shared, optimistic;          // has shared readers / has optimistic readers and upgrades
  void (*make)();
  void (*tinit)();                  // called by every thread once
  // runs f(arg) while holding the lock exclusively / shared
  void (*write)(void (*f)(void *), void *arg);
  void (*read)(void (*f)(void *), void *arg);
  bool (*begin)(uint64_t &v);       // starts an optimistic read, false if the lock is taken
  uint64_t (*begin_wait)();         // the same, waits instead
  bool (*validate)(uint64_t v);
  bool (*upgrade)(uint64_t v, void (*f)(void *), void *arg);
  bool (*try_write)(void (*f)(void *), void *arg);
};
extern const LockOps *const lock_variants[];
