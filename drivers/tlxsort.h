// tlx sorting, merging, selection (C30). The state of a sequential exploration is the input; every input up to the
// stated length is enumerated and all algorithms are run on it.
#pragma once
#include <string.h>
#include <assert.h>
#include <algorithm>
#include <cstdint>
#include <memory>
#include <stack>
#include <string>
#include <vector>
#include "mc.h"
#include "oc.h"
using std::string;
extern int the_workers;
void add_strings(mc::Suite &s, bool T);
void add_parallel(mc::Suite &s, bool T);
void add_sample_sort(mc::Suite &s, bool T);
void add_public(mc::Suite &s, bool T);

// ---------------------------------------------------------------- inputs as letter sequences
struct In : mc::SeqConfig {
  struct S { int n; int v[40]; };
  S *s;
  void fix(const string &nm, int letters, int d, long w = 1) { name = nm; nletters = letters; depth = d; weight = w; }
  void setup() override { s = new S(); memset(s, 0, sizeof *s); }
  void apply(int l) override { s->v[s->n++] = l; }
  void audit() override { long b = mc::live_blocks(); run(); if (mc::live_blocks() != b) mc::fail("memory left behind: %ld blocks", mc::live_blocks() - b); }
  virtual void run() = 0;
};

typedef std::vector<const char *> Words;
