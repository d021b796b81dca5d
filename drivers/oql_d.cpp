#define OMCS_LOCK
#define OMCS_OFFSET
#define omcs_impl omcs_offset
#define offset offset_d
#include "optiql_omcs.inc"
const LockOps ops_omcs_offset = OMCS_TABLE("omcs-offset");
