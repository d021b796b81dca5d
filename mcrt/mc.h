// mcrt: controlled-scheduler model checker for real C/C++ code.
// Target code is compiled with -fsanitize=thread (instrumentation only) and linked with
// libmcrt.so instead of libtsan, so that every load, store and atomic operation of the real
// code goes through the explorer.  See DESIGN.md.
#pragma once
#include <stdint.h>
#include <functional>
#include <string>
#include <vector>

namespace mc {

typedef unsigned __int128 opset;   // a set of operation ids
enum { MAXT = 8, MAXOPS = 16, MAXDATA = 600 };

struct OpRec {               // one operation of a recorded history
  int tid = -1, idx = -1;    // thread, index in thread's program
  int op = 0;
  long a = 0, b = 0, c = 0;
  long r = 0;
  std::vector<long> data;    // e.g. the output of a scan
  bool invoked = false, done = false;
  opset before = 0;       // set of operation ids (tid*MAXOPS+idx) completed before this one began
  int id() const { return tid * MAXOPS + idx; }
};

struct Hist {
  std::vector<OpRec> ops;    // all completed operations of the concurrent phase
  std::vector<long> fin;     // what the final phase recorded through mc::fin()
};

// One closed concurrent program: prefilled state + nthreads bodies.
struct Config {
  std::string name;
  int nthreads = 2;
  int bound = 255;           // preemption bound (255 = none: every interleaving)
  uint64_t max_states = 40000000;
  int spurious = 0;          // this many condition waits of an execution may return without having been signalled
  long weight = 1;           // bigger = started earlier
  int fill = 0xBE;           // contents of fresh memory
  virtual ~Config() {}
  virtual void setup() {}              // target mode
  virtual void thread_init(int) {}     // target mode, in thread t's context, before the concurrent phase
  virtual void body(int t) = 0;        // target mode, concurrent
  virtual void thread_fini(int) {}     // target mode, sequentially after the concurrent phase
  virtual void final_phase() {}        // target mode, sequential
  virtual bool check(const Hist &, std::string &why) { return true; }   // host mode
  virtual std::string describe(const OpRec &o);
};

// One sequential exploration: every sequence of letters up to depth, from a prefilled state.
struct SeqConfig {
  std::string name;
  int nletters = 0, depth = 0;
  bool canonical_alloc = false;        // lowest-address reuse: memory images converge, dedupe is effective
  bool dedupe = false;                 // prune on identical memory image
  bool bfs = false;                    // breadth-first over distinct states (fingerprint or memory image), to closure or depth
  bool final_each = true;              // run audit() after every step
  uint64_t max_states = 60000000;
  long weight = 1;
  int fill = 0xBE;
  virtual ~SeqConfig() {}
  virtual void setup() {}
  virtual void apply(int letter) = 0;  // must call mc::fail() on mismatch
  virtual void audit() {}
  virtual uint64_t fingerprint() { return 0; }  // optional: canonical fingerprint instead of image hash
  virtual bool use_fingerprint() { return false; }
  virtual std::string letter_name(int l) { return std::to_string(l); }
};

struct Suite {
  std::string property;
  std::string rule;                    // what makes an evaluation distinct / non trivial
  std::vector<Config *> conc;
  std::vector<SeqConfig *> seq;
  std::string extra_note;
};

// ---- called from target code (fibers) ----
int op_begin(int op, long a, long b = 0, long c = 0);
void op_end(int h, long r);
void op_data(int h, const long *p, int n);
void fin(long v);                       // final phase observation
void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
int self();                             // 0 = main/setup fiber, 1..n = threads
bool in_conc();
long live_blocks();                     // heap blocks allocated by the target and not freed
void tag_block(void *p, int tag);       // tag 1..15 a heap block ...
void free_tagged(int tag);              // ... and free every live block with that tag
void region_note(const void *p, size_t n);  // unused hook
void fail_alloc(long n);               // let the n-th heap allocation of the target from now on fail (0: none)
bool alloc_pending();                   // that allocation has not been reached yet
void set_env_choice_limit(int n);
int env_choice(int n);                  // nondeterministic environment answer, explored exhaustively

// generic entry point: parses argv (--tier, --evidence, --replay, --only, --list, --jobs)
int run_suite(int argc, char **argv, const std::function<Suite(const std::string &property, const std::string &tier)> &make);

}  // namespace mc
