#define RWLOCK_READER_PREFERENCE
#define mcsrw mcsrw_reader
#include "optiql_mcsrw.inc"
const LockOps ops_mcsrw_reader = MCSRW_TABLE("rw-reader-preference");
