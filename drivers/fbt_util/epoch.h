// The most eager reclamation that epoch guards allow: an object retired now is freed as soon as every guard that
// was open at that moment has been closed.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <atomic>
namespace util {
class Epoch {
  std::atomic<uint64_t> clock_{0};     // makes guards and retirements visible to the scheduler
  uint32_t open_ = 0;
  int n_ = 0;
  struct R { void *p; uint32_t waits; } r_[4096];
  __attribute__((no_sanitize("thread"), noinline)) void *pop() {
    for (int i = 0; i < n_; i++) if (!r_[i].waits) { void *p = r_[i].p; r_[i].p = r_[n_ - 1].p; r_[i].waits = r_[n_ - 1].waits; n_--; return p; }
    return nullptr;
  }
  __attribute__((no_sanitize("thread"), noinline)) void set(int t, bool on) {
    if (on) open_ |= 1u << t;
    else { open_ &= ~(1u << t); for (int i = 0; i < n_; i++) r_[i].waits &= ~(1u << t); }
  }
  __attribute__((no_sanitize("thread"), noinline)) bool add(void *p) {
    if (n_ >= 4096) return false;
    r_[n_].p = p; r_[n_].waits = open_; n_++; return true;
  }
  __attribute__((no_sanitize("thread"), noinline)) bool is_open(int t) { return open_ >> t & 1; }
 public:
  static int self();                   // the driver's thread number
  bool guarded() { return is_open(self()); }
  void enter(int t) { clock_.fetch_add(1); set(t, true); }
  void leave(int t) { clock_.fetch_add(1); set(t, false); drain(); }
  void drain() { while (void *p = pop()) free(p); }
  void retire(void *p) {
    if (!p) return;
    clock_.fetch_add(1);
    if (!add(p)) abort();
  }
  ~Epoch() { for (int i = 0; i < n_; i++) free(r_[i].p); }
};
class EpochGuard {
  Epoch &e_;
  int t_;
 public:
  EpochGuard(Epoch &e) : e_(e), t_(Epoch::self()) { e_.enter(t_); }
  ~EpochGuard() { e_.leave(t_); }
  void retire(void *p) { e_.retire(p); }
};
}  // namespace util
