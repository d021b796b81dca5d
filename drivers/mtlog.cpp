// MassTree's server: C35, recovery from its logs after a crash.  The real request handler, logger threads and
// recovery of mtd.cc and log.cc run against an in-memory file system that keeps apart what was written and what
// was synced.  Logger threads are coroutines; the letters decide when they run and when the machine goes down.
#include "compiler.hh"
#include "masstree.hh"
#include "kvthread.hh"
#include "masstree_tcursor.hh"
#include "masstree_insert.hh"
#include "masstree_remove.hh"
#include "masstree_scan.hh"
#include "query_masstree.hh"
#include "kvrow.hh"
#include "kvio.hh"
#include "kvtest.hh"
#include "kvrandom.hh"
#include "kvstats.hh"
#include "file.hh"
#include "misc.hh"
#include "json.hh"
#include "msgpack.hh"
#include "checkpoint.hh"
#include "log.hh"
#include "clp.h"
#include "timestamp.hh"
#include "mc.h"
#include <stdio.h>
#include <stdarg.h>
#include <ctype.h>
#include <stdlib.h>
#include <unistd.h>
#include <string.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <sys/socket.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/mman.h>
#include <sys/epoll.h>
#include <sys/utsname.h>
#include <netinet/tcp.h>
#include <fcntl.h>
#include <assert.h>
#include <pthread.h>
#include <math.h>
#include <signal.h>
#include <errno.h>
#include <limits.h>
#include <sys/syscall.h>
#include <ucontext.h>
#include <setjmp.h>
#include <algorithm>
#include <deque>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#define printf(...) ((void)0)
#define fprintf(...) ((void)0)
#define main mtd_main
#include "log.cc"
#include "mtd.cc"
#undef main
#undef printf
#undef fprintf

namespace {
typedef std::string S;
enum { NLOG = 2, NWORK = 2, NCO = NLOG + 1, SOCK = 500, FD0 = 1000 };

// ---------------------------------------------------------------- virtual disk
struct File { S data; size_t synced = 0; S old; bool dirty_meta = false; };   // data[0, synced) is on disk; old: what was on disk before a truncation
struct Fd { S name; bool used = false, append = false; size_t pos = 0; };
struct World {
  std::map<S, File> fs;
  std::vector<Fd> fds;
  // scheduling
  ucontext_t main, co[NCO]; char *stk[NCO]; bool alive[NCO]; void *(*fn[NCO])(void *); void *arg[NCO]; int nco = 0, cur = -1;
  int crash_op = -1;           // crash before this many more disk operations (-1: never)
  bool crashed = false;
  jmp_buf down;
  long now = 1000;
  // reference
  struct Req { uint64_t epoch; int kind, key, col; S val; };
  std::vector<Req> hist;        // since the last start
  std::vector<std::vector<S>> base;   // what was there then
  threadinfo *w[NWORK];
  query<row_type> *q[NWORK];
  conn *c[NWORK]; S in[NWORK], out[NWORK];   // a client's connection to each worker
  int nval = 0;
  int crashes = 0;
  bool ysync = false, ckp = false;            // with a checkpointing thread
};
World *W;
const S PRE = "/v/";
bool mine(const char *p) { return p && !strncmp(p, PRE.c_str(), PRE.size()); }
void crash_now() {
  W->crashed = true;
  if (W->cur >= 0) { int c = W->cur; W->cur = -1; swapcontext(&W->co[c], &W->main); }
  longjmp(W->down, 1);
}
void disk_op() { if (W->crash_op >= 0 && W->crash_op-- == 0) crash_now(); }
void to_main() { int c = W->cur; W->cur = -1; swapcontext(&W->co[c], &W->main); }
void co_main(int i) { W->fn[i](W->arg[i]); W->alive[i] = false; to_main(); abort(); }
void run_co(int i) {
  if (!W->alive[i]) return;
  W->cur = i; swapcontext(&W->main, &W->co[i]);
  if (W->crashed) longjmp(W->down, 1);
}
void run_all() { int f = rec_state == REC_LOG_REPLAY && rec_nactive == NLOG ? mc::env_choice(2) : 0; for (int i = 0; i < W->nco; i++) run_co(i < NLOG ? i ^ f : i); }
}

extern "C" {
// mtd's main(), which is not called, parses its command line with these
Clp_Parser *Clp_NewParser(int, const char *const *, int, const Clp_Option *) { abort(); }
void Clp_DeleteParser(Clp_Parser *) { abort(); }
int Clp_AddType(Clp_Parser *, int, int, Clp_ValParseFunc, void *) { abort(); }
int Clp_Next(Clp_Parser *) { abort(); }
int Clp_OptionError(Clp_Parser *, const char *, ...) { abort(); }
#define VFD(fd) ((fd) >= FD0)
#define F(fd) (W->fds[(fd) - FD0])
int __wrap_open(const char *p, int fl, ...) {
  if (!mine(p)) { errno = ENOENT; return -1; }
  if (!W->fs.count(p)) { if (!(fl & O_CREAT)) { errno = ENOENT; return -1; } disk_op(); W->fs[p]; }
  if (fl & O_TRUNC) { disk_op(); W->fs[p] = File(); }
  Fd f; f.name = p; f.used = true; f.append = fl & O_APPEND; W->fds.push_back(f);
  return FD0 + (int)W->fds.size() - 1;
}
int __wrap_creat(const char *p, mode_t m) { return __wrap_open(p, O_CREAT | O_TRUNC | O_WRONLY, m); }
int __wrap_close(int fd) { if (!VFD(fd) || !F(fd).used) { errno = EBADF; return -1; } F(fd).used = false; return 0; }
int __wrap_fstat(int fd, struct stat *sb) { memset(sb, 0, sizeof *sb); sb->st_size = W->fs[F(fd).name].data.size(); return 0; }
int __wrap_stat(const char *p, struct stat *sb) { memset(sb, 0, sizeof *sb); return 0; }
int __wrap_mkdir(const char *, mode_t) { return 0; }
ssize_t __wrap_write(int fd, const void *b, size_t n) {
  if (!VFD(fd)) { if (fd >= SOCK) W->out[fd - SOCK].append((const char *)b, n); return n; }
  disk_op();
  Fd &f = F(fd); File &x = W->fs[f.name];
  if (f.append) f.pos = x.data.size();
  if (x.data.size() < f.pos + n) x.data.resize(f.pos + n);
  x.data.replace(f.pos, n, (const char *)b, n); f.pos += n; x.synced = std::min(x.synced, f.pos - n);
  return n;
}
ssize_t __wrap_read(int fd, void *b, size_t n) {
  if (!VFD(fd)) { S &d = W->in[fd - SOCK]; n = std::min(n, d.size()); memcpy(b, d.data(), n); d.erase(0, n); return n; }
  Fd &f = F(fd); S &d = W->fs[f.name].data; n = f.pos < d.size() ? std::min(n, d.size() - f.pos) : 0; memcpy(b, d.data() + f.pos, n); f.pos += n; return n; }
int __wrap_fsync(int fd) {
  if (W->ysync && W->cur >= 0 && !recovering) to_main();      // others run between a write and its sync
  disk_op(); File &x = W->fs[F(fd).name]; x.synced = x.data.size(); x.dirty_meta = false; x.old.clear(); return 0; }
int __wrap_ftruncate(int fd, off_t n) {
  disk_op();
  File &x = W->fs[F(fd).name];
  if (!x.dirty_meta) { x.old = x.data; x.dirty_meta = true; }
  x.data.resize(n); x.synced = std::min(x.synced, (size_t)n);
  return 0;
}
off_t __wrap_lseek(int fd, off_t o, int wh) { F(fd).pos = wh == SEEK_SET ? o : wh == SEEK_END ? W->fs[F(fd).name].data.size() + o : F(fd).pos + o; return F(fd).pos; }
void *__wrap_mmap(void *, size_t n, int, int, int fd, off_t) { char *p = (char *)malloc(n); memcpy(p, W->fs[F(fd).name].data.data(), n); return p; }   // exactly the file: a read beyond it is reported
int __wrap_munmap(void *p, size_t) { free(p); return 0; }
int __wrap_rename(const char *a, const char *b) { disk_op(); W->fs[b] = W->fs[a]; W->fs.erase(a); return 0; }
int __wrap_unlink(const char *a) { disk_op(); W->fs.erase(a); return 0; }
int __wrap_nanosleep(const struct timespec *, struct timespec *) { if (W->cur >= 0) to_main(); else run_all(); return 0; }
int __wrap_gettimeofday(struct timeval *tv, void *) { tv->tv_sec = W->now; tv->tv_usec = 0; return 0; }
int __wrap_pthread_create(pthread_t *, const pthread_attr_t *, void *(*fn)(void *), void *arg) {
  int i = W->nco++; if (i >= NCO) abort();
  W->fn[i] = fn; W->arg[i] = arg; W->alive[i] = true;
  enum { SZ = 48 * 1024 };
  if (!W->stk[i]) W->stk[i] = (char *)malloc(SZ);
  getcontext(&W->co[i]); W->co[i].uc_stack.ss_sp = W->stk[i]; W->co[i].uc_stack.ss_size = SZ; W->co[i].uc_link = nullptr;
  makecontext(&W->co[i], (void (*)())co_main, 1, i);
  return 0;
}
int __wrap_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *) { if (W->cur >= 0) to_main(); else run_all(); return 0; }
int __wrap_pthread_cond_timedwait(pthread_cond_t *, pthread_mutex_t *, const struct timespec *) { to_main(); return ETIMEDOUT; }
unsigned __wrap_sleep(unsigned) { to_main(); return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *) { return 0; }
int __wrap_pthread_cond_signal(pthread_cond_t *) { return 0; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *) { return 0; }
int __wrap_pthread_mutex_unlock(pthread_mutex_t *) { return 0; }
pthread_t __wrap_pthread_self() { return 0; }
#undef F
}

namespace {
const char *const KEYS[3] = {"a", "b", "layerone-and-more"};
enum Kind { PUT, REP, REM, PIPE };   // PIPE: two puts sent at once

typedef std::vector<S> Row;            // empty: no such key
std::vector<Row> state_at(size_t n = ~0ul) {   // after the first n requests since the last start
  std::vector<Row> st = W->base;
  for (auto &r : W->hist) {
    if (n-- == 0) break;
    Row &x = st[r.key];
    if (r.kind == REM) x.clear();
    else if (r.kind == REP) x = Row{r.val};
    else if (r.col == 7) { if (x.size() < 3) x.resize(3); x[0] = r.val; x[2] = r.val + "+"; }
    else { if ((int)x.size() <= r.col) x.resize(r.col + 1); x[r.col] = r.val; }
  }
  return st;
}
// requests through a client's connection, as tcp_threadfunc has it; the answers replace them
void serve(int w, Json *req, int n) {
  StringAccum sa; for (int i = 0; i < n; i++) msgpack::unparse(sa, req[i]);
  W->in[w].assign(sa.data(), sa.length()); W->out[w].clear();
  conn *c = W->c[w]; threadinfo *ti = W->w[w];
  int done = 0;
  do {
    uint64_t xposition = c->xposition();
    Json &request = c->receive();
    if (!request) { mc::fail("request not understood"); return; }
    ti->rcu_start();
    int ret = onego(*W->q[w], request, c->recent_string(xposition), *ti);
    ti->rcu_stop();
    msgpack::unparse(*c->kvout, request);
    request.clear();
    done++;
    if (ret < 0) mc::fail("request refused");
  } while (c->check(0));
  kvflush(c->kvout);
  // a part of the next request may be waiting in the socket, where epoll sees it
  while (done < n && W->in[w].size()) {
    uint64_t xposition = c->xposition();
    Json &request = c->receive();
    if (!request) { mc::fail("request not understood"); return; }
    ti->rcu_start(); onego(*W->q[w], request, c->recent_string(xposition), *ti); ti->rcu_stop();
    msgpack::unparse(*c->kvout, request); request.clear(); done++;
    kvflush(c->kvout);
  }
  if (done != n) mc::fail("%d of %d requests were served", done, n);
  msgpack::parser mp(String(W->out[w].data(), (int)W->out[w].size()));
  for (int i = 0; i < n; i++) { req[i] = Json(); mp >> req[i]; }
}
void serve(int w, Json &req) { serve(w, &req, 1); }
S show(const Row &r) { if (r.empty()) return "nothing"; S o = "["; for (auto &c : r) o += (o.size() > 1 ? "," : "") + c; return o + "]"; }
Row cols(const Json &v, int from = 0) { Row r; for (int i = from; i < v.size(); i++) r.push_back(S(v[i].as_s().data(), v[i].as_s().length())); return r; }
std::vector<Row> contents(const char *when) {   // by a get of each key and by a scan, which have to agree
  std::vector<Row> st;
  for (int k = 0; k < 3; k++) {
    Json req = Json::array(1, (int)Cmd_Get, KEYS[k]);
    serve(0, req);
    Row got = cols(req, 2);
    if (got.size() == 1 && got[0] == KEYS[k]) got.clear();          // no such key: the request comes back as it was
    st.push_back(got);
  }
  Json req = Json::array(1, (int)Cmd_Scan, "", 100);
  serve(1, req);
  int i = 2;
  for (int k = 0; k < 3; k++) {
    if (st[k].empty()) continue;
    if (i + 1 >= req.size()) { mc::fail("%s: a scan misses key %s", when, KEYS[k]); break; }
    S key(req[i].as_s().data(), req[i].as_s().length()); const Json &v = req[i + 1];
    Row got = v.is_s() ? Row{S(v.as_s().data(), v.as_s().length())} : cols(v);
    if (key != KEYS[k] || got != st[k]) mc::fail("%s: a scan delivers %s = %s where %s = %s is expected", when, key.c_str(), show(got).c_str(), KEYS[k], show(st[k]).c_str());
    i += 2;
  }
  if (i < req.size()) mc::fail("%s: a scan delivers more than there is", when);
  return st;
}
void compare(const std::vector<Row> &st, const char *when) {
  std::vector<Row> got = contents(when);
  for (int k = 0; k < 3; k++) if (got[k] != st[k]) mc::fail("%s: key %s reads %s, expected %s", when, KEYS[k], show(got[k]).c_str(), show(st[k]).c_str());
}

void fresh_process() {
  std::map<S, File> fs = W->fs;
  tree = nullptr; logs = nullptr; recovering = false; ckp_gen = 0; cks = nullptr; rec_nactive = 0; rec_state = REC_NONE;
  global_log_epoch = 0; global_wake_epoch = 0; memset(&log_epoch_time, 0, sizeof log_epoch_time);
  rec_ckp_min_epoch = rec_ckp_max_epoch = 0; rec_log_infos = nullptr; rec_replay_min_epoch = rec_replay_max_epoch = rec_replay_min_quiescent_last_epoch = 0;
  threadinfo::allthreads = nullptr; globalepoch = 1; active_epoch = 1;
  nlogger = NLOG; nckthreads = W->ckp; checkpoint_interval = 10; go_quit = 0; tcpthreads = NWORK; logging = true; pinthreads = false; recovery_only = false;
  logdirs.assign(1, "/v"); ckpdirs.assign(1, "/v"); log_epoch_interval.tv_sec = 5; log_epoch_interval.tv_usec = 0;
  W->fds.clear(); W->nco = 0; W->cur = -1; W->crashed = false;
}
bool boot() {                           // as mtd's main; false if the machine went down before it was up
  fresh_process();
  if (setjmp(W->down)) return false;
  threadinfo *m = threadinfo::make(threadinfo::TI_MAIN, -1);
  initial_timestamp = timestamp();
  tree = new Masstree::default_table; tree->initialize(*m);
  log_init();
  recover(m);
  for (int i = 0; i < NWORK; i++) { W->w[i] = threadinfo::make(threadinfo::TI_PROCESS, i); prepare_thread(W->w[i]); W->q[i] = new query<row_type>(); W->c[i] = new conn(SOCK + i); }
  W->crash_op = -1;
  return true;
}
enum Tail { ENDS, BYTES };              // which parts of the unsynced bytes may have reached the disk
void power_off(Tail tail) {
  for (auto &p : W->fs) {
    File &x = p.second;
    if (x.dirty_meta && mc::env_choice(2)) { x.data = x.old; }
    else if (x.data.size() > x.synced) {
      int n = x.data.size() - x.synced;
      if (tail == ENDS) { int c = mc::env_choice(3); n = c == 0 ? n : c == 1 ? 0 : n - 1; x.data.resize(x.synced + n); }
      else {
        int keep = mc::env_choice(n + 1);
        if (mc::env_choice(2)) for (int i = keep; i < n; i++) x.data[x.synced + i] = 0;      // the file grew, the data did not get there
        else x.data.resize(x.synced + keep);
      }
    }
    x.synced = x.data.size(); x.dirty_meta = false; x.old.clear();
  }
}
uint64_t promised() {                   // every log says on disk that it has reached this epoch: what came before is safe
  uint64_t b = ~0ull;
  for (int i = 0; i < NLOG; i++) {
    File &f = W->fs[PRE + "kvd-log-" + std::to_string(i)]; uint64_t e = 0;
    for (size_t p = 0; p + 8 <= f.synced;) {
      uint32_t cmd, size; memcpy(&cmd, &f.data[p], 4); memcpy(&size, &f.data[p + 4], 4);
      if (size < 8 || p + size > f.synced) break;
      if (cmd == logcmd_epoch) memcpy(&e, &f.data[p + 8], 8);
      p += size;
    }
    b = std::min(b, e);
  }
  uint64_t m = ~0ull;                   // and what the server itself says is flushed, on which checkpoints are committed
  for (int i = 0; i < NLOG; i++) m = std::min(m, logs->log(i).quiescent() ? global_log_epoch.value() : logs->log(i).flushed_epoch().value());
  return std::max(b, m);
}
void check_recovered(uint64_t bound) {
  std::vector<Row> got = contents("after recovery");
  size_t safe = 0; while (safe < W->hist.size() && W->hist[safe].epoch < bound) safe++;
  bool ok = false; long early = -1;
  for (size_t n = 0; n <= W->hist.size(); n++) if (state_at(n) == got) { if (n >= safe) ok = true; else early = n; }
  if (!ok) {
    S g; for (auto &r : got) g += " " + show(r);
    if (early >= 0) mc::fail("recovered%s, the state after %ld of %ld requests, though epochs below %ld were flushed and the first %ld came before that", g.c_str(), early, (long)W->hist.size(), (long)bound, (long)safe);
    else mc::fail("recovered%s, which never was the state of the table", g.c_str());
  }
  W->base = got; W->hist.clear();
}
void down_and_up(Tail tail, bool again) {
  uint64_t bound = promised();
  power_off(tail);
  if (again) {                          // recovery itself is cut short, at every point
    W->crash_op = mc::env_choice(W->ckp ? 14 : 9);
    if (!boot()) { power_off(tail); W->crash_op = -1; if (!boot()) mc::fail("unreachable"); }
    W->crash_op = -1;
  } else { W->crash_op = -1; boot(); }
  check_recovered(bound);
}

struct Log : mc::SeqConfig {
  struct L { int kind, w, key, col, pad; };      // col 7: columns 0 and 2 at once; pad: length of the value
  enum { EPOCH = 10, STEP, STEPX, CKP, CRASH, CRASH2, SETTLE };
  std::vector<L> ls; std::vector<std::vector<int>> pre; int max_crash; bool ckp = false, ysync = false;
  Log(S n, std::vector<L> l, int d, int mcr = 2, std::vector<L> p = {}) : ls(l), max_crash(mcr), prefix(p) { name = n; nletters = ls.size(); depth = d; canonical_alloc = true; final_each = false; }
  std::vector<L> prefix;
  void setup() override {
    std::cerr.setstate(std::ios::failbit);
    W = new World(); W->base.resize(3); W->ckp = ckp; W->ysync = ysync; for (auto &s : W->stk) s = nullptr;
    if (!boot()) mc::fail("boot");
    for (auto &l : prefix) go(l);
  }
  void apply(int i) override { go(ls[i]); }
  void go(const L &l) {
    switch (l.kind) {
      case PUT: case REP: case REM: {
        std::vector<Row> st = state_at();
        World::Req r{global_log_epoch.value(), l.kind, l.key, l.col, S("v") + std::to_string(W->nval++)};
        if (l.pad) r.val.resize(l.pad, 'x');
        Json req;
        if (l.kind == PUT && l.col == 7) req = Json::array(1, (int)Cmd_Put, KEYS[l.key], 0, r.val.c_str(), 2, (r.val + "+").c_str());
        else if (l.kind == PUT) { req = Json::array(1, (int)Cmd_Put, KEYS[l.key], l.col, r.val.c_str()); }
        else if (l.kind == REP) req = Json::array(1, (int)Cmd_Replace, KEYS[l.key], r.val.c_str());
        else req = Json::array(1, (int)Cmd_Remove, KEYS[l.key]);
        serve(l.w, req);
        bool there = !st[l.key].empty();
        if (l.kind == REM) { if (req[2].as_b() != there) mc::fail("remove of %s answered %d", KEYS[l.key], (int)req[2].as_b()); if (there) W->hist.push_back(r); }
        else { if (req[2].as_i() != (there ? Updated : Inserted)) mc::fail("%s of %s answered %d", l.kind == PUT ? "put" : "replace", KEYS[l.key], (int)req[2].as_i()); W->hist.push_back(r); }
        break;
      }
      case PIPE: {
        std::vector<Row> st = state_at();
        World::Req r[2]; Json req[2];
        for (int i = 0; i < 2; i++) {
          int k = i ? l.key : 0;
          r[i] = World::Req{global_log_epoch.value(), i && l.col == 5 ? REP : PUT, k, 0, S("v") + std::to_string(W->nval++)};
          if (!i) r[i].val.resize(l.pad, 'y');
          if (i && l.col == 5) req[i] = Json::array(1, (int)Cmd_Replace, KEYS[k], r[i].val.c_str()); else req[i] = Json::array(1, (int)Cmd_Put, KEYS[k], 0, r[i].val.c_str());
        }
        serve(l.w, req, 2);
        for (int i = 0; i < 2; i++) {
          if (req[i][2].as_i() != (state_at()[r[i].key].empty() ? Inserted : Updated)) mc::fail("put of %s answered %d", KEYS[r[i].key], (int)req[i][2].as_i());
          W->hist.push_back(r[i]);
        }
        break;
      }
      case EPOCH: W->now += 10; check_epoch(); break;
      case STEP: if (setjmp(W->down)) return; run_co(l.w); break;
      case CKP: if (setjmp(W->down)) return; run_co(NLOG); break;
      case STEPX: {                     // the machine goes down while logger w is at work
        if (W->crashes++ >= max_crash) return;
        uint64_t b = promised();
        W->crash_op = mc::env_choice(2);
        if (!setjmp(W->down)) run_co(l.w);
        W->crash_op = -1; power_off(l.col ? BYTES : ENDS); W->crash_op = -1; boot(); check_recovered(b);
        break;
      }
      case SETTLE: if (setjmp(W->down)) return; for (int i = 0; i < 3; i++) { W->now += 10; check_epoch(); for (int k = 0; k <= W->ysync; k++) { run_co(0); run_co(1); } } break;
      case CRASH: if (W->crashes++ < max_crash) down_and_up(ENDS, false); break;
      case CRASH2: if (W->crashes++ < max_crash) down_and_up(ENDS, true); break;
    }
    if (l.kind < EPOCH) compare(state_at(), "after a request");
  }
  S letter_name(int i) override {
    const L &l = ls[i]; S w = std::to_string(l.w);
    switch (l.kind) {
      case PIPE: return "put" + w + "(a,0,long)+" + (l.col == 5 ? "replace" : "put") + "(" + KEYS[l.key] + ")";
      case PUT: return "put" + w + "(" + KEYS[l.key] + "," + std::to_string(l.col) + (l.pad ? ",long" : "") + ")"; case REP: return "replace" + w + "(" + KEYS[l.key] + ")"; case REM: return "remove" + w + "(" + KEYS[l.key] + ")";
      case EPOCH: return "epoch"; case STEP: return "log" + w; case STEPX: return "log" + w + "+crash"; case CKP: return "checkpointer"; case CRASH: return "crash"; case CRASH2: return "crash+crash"; case SETTLE: return "settle";
    }
    return "?";
  }
};
}

int main(int argc, char **argv) {
  return mc::run_suite(argc, argv, [](const S &prop, const S &tier) {
    mc::Suite s; s.property = prop;
    bool q = tier == "quick"; (void)q;
    typedef Log::L L;
    L p0{PUT, 0, 0, 0}, p0c{PUT, 0, 0, 1}, p1{PUT, 1, 0, 0}, p1c{PUT, 1, 0, 1}, r0{REP, 0, 0, 0}, r1{REP, 1, 0, 0}, d0{REM, 0, 0, 0}, d1{REM, 1, 0, 0};
    L pb1{PUT, 1, 1, 0};
    L E{Log::EPOCH, 0, 0, 0}, s0{Log::STEP, 0, 0, 0}, s1{Log::STEP, 1, 0, 0}, x0{Log::STEPX, 0, 0, 0}, x1{Log::STEPX, 1, 0, 0}, X{Log::CRASH, 0, 0, 0}, XX{Log::CRASH2, 0, 0, 0}, b0{Log::STEPX, 0, 0, 1}, b1{Log::STEPX, 1, 0, 1};
    L ST{Log::SETTLE, 0, 0, 0}, rb0{REP, 0, 1, 0}, db1{REM, 1, 1, 0}, pc0{PUT, 0, 2, 3}, dc1{REM, 1, 2, 0};
    // which requests survive: epochs, loggers and workers in any order
    s.seq.push_back(new Log("two workers, one key", {p0, p1c, r1, d0, E, s0, s1, X}, q ? 5 : 7, 2));
    s.seq.push_back(new Log("two keys, epochs and loggers", {p0, pb1, E, s0, s1, X}, q ? 6 : 8, 2));
    // what replay makes of the records: everything is on disk, the logs come back in either order
    s.seq.push_back(new Log("records of two logs for one key", {p0, p0c, p1, p1c, r0, r1, d0, d1, ST, X}, q ? 5 : 6, 2));
    s.seq.push_back(new Log("long key, many columns", {pc0, dc1, rb0, db1, ST, X}, q ? 6 : 8, 2));
    L big0{PUT, 0, 0, 0, 60}, big1{PUT, 1, 0, 7, 50}, two0{PUT, 0, 0, 7}, two1{PUT, 1, 0, 7};
    s.seq.push_back(new Log("requests longer than the buffers", {big0, big1, two0, d1, ST, X}, q ? 5 : 7, 2));
    L pi0{PIPE, 0, 2, 0, 24}, pi1{PIPE, 1, 2, 5, 30}, pi2{PIPE, 0, 2, 5, 10};
    s.seq.push_back(new Log("requests in a row", {pi0, pi1, pi2, dc1, ST, X}, q ? 5 : 7, 2));
    s.seq.push_back(new Log("first and only start", {p0, pb1, s0, s1, X}, q ? 6 : 7, 1));
    L CK{Log::CKP, 0, 0, 0};
    auto withckp = [&](Log *l) { l->ckp = true; s.seq.push_back(l); };
    withckp(new Log("checkpoint, settled", {p0, p1c, d0, ST, CK, X}, q ? 6 : 8, 2));
    withckp(new Log("checkpoint, epochs and loggers", {p0, pb1, E, s0, s1, CK, X}, q ? 6 : 7, 1, {p0, ST, CK}));
    withckp(new Log("crash while recovering from a checkpoint", {p0, pb1, ST, CK, XX}, q ? 3 : 4, 2, {p0, ST, CK, ST}));
    // one log wakes up while the other sleeps on, and the other way round
    s.seq.push_back(new Log("one log wakes", {pb1, E, s0, s1, X}, q ? 7 : 9, 2, {p0, ST, E, p0}));
    s.seq.push_back(new Log("both logs awake", {p0, pb1, E, s0, s1, X}, q ? 6 : 8, 1, {p0, ST, E, p0, pb1, s0, s1, E, p0, pb1, s0, s1}));
    s.seq.push_back(new Log("after a recovered removal", {p0c, p1, r1, d0, ST, X}, q ? 5 : 6, 3, {p0, d0, ST, X}));
    auto between = [&](Log *l, bool ckp) { l->ysync = true; l->ckp = ckp; s.seq.push_back(l); };
    between(new Log("requests while a checkpoint is written", {p0, E, ST, CK, X}, q ? 7 : 8, 1, {p0, ST}), true);
    between(new Log("requests between a write and its sync", {p0, pb1, E, s0, s1, X}, q ? 6 : 7, 2, {p0, ST}), false);
    between(new Log("requests between a write and its sync, one log", {p0, E, s0, s1, ST, X}, q ? 6 : 8, 2, {ST, p0, s0, s1, p0, E}), false);
    // torn writes: any number of the bytes not yet synced, or a file that has grown but was not filled
    s.seq.push_back(new Log("torn writes", {p0, p1c, d0, E, s0, b0, b1}, q ? 3 : 4, 2, {p0, ST}));
    // recovery is itself interrupted
    s.seq.push_back(new Log("crash while recovering", {p0, pb1, E, s0, s1, XX}, q ? 4 : 5, 2));
    s.seq.push_back(new Log("crash while recovering, settled", {p0, p1c, d0, ST, x0, XX}, q ? 4 : 5, 2, {p0, pb1, ST}));
    return s;
  });
}
