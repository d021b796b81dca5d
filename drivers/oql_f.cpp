#define MCSRW_LOCK_ONLY
#define QUEUED
#define mcsrw mcsrw_queue
#include "optiql_mcsrw.inc"
const LockOps ops_mcsrw_queue = MCSRW_TABLE("mcsrw-queue");
