#define OMCS_LOCK
#define omcs_impl omcs_queue
#define offset offset_a
#include "optiql_omcs.inc"
const LockOps ops_omcs_queue = OMCS_TABLE("omcs-queue");
