#define RWLOCK_WRITER_PREFERENCE
#define mcsrw mcsrw_writer
#include "optiql_mcsrw.inc"
const LockOps ops_mcsrw_writer = MCSRW_TABLE("rw-writer-preference");
