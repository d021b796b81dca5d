#pragma once
#include "mc.h"
// The debugging checks are also evaluated on values that an optimistic reader is about to discard, so they count
// only when a single thread runs.
extern bool fbt_alone;
#define DEBUG_COND_ERROR(c, m) do { if (fbt_alone && (c)) mc::fail("internal check failed: %s", m); } while (0)
#define GRAPH_FONT_RED ""
#define GRAPH_FONT_YELLOW ""
#define GRAPH_ATTR_NONE ""
